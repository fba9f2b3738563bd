"""Helpers shared by the CKKS checks (imported inside shards only; importing turns x64 on)."""
import itertools
import math

import jax
import jax.numpy as jnp
import numpy as np

from jaxite.jaxite_ckks import random as ckks_random

jax.config.update("jax_enable_x64", True)


def is_prime(n):
  if n < 2:
    return False
  for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
    if n % p == 0:
      return n == p
  d, r = n - 1, 0
  while d % 2 == 0:
    d, r = d // 2, r + 1
  for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
    x = pow(a, d, n)
    if x in (1, n - 1):
      continue
    for _ in range(r - 1):
      x = x * x % n
      if x == n - 1:
        break
    else:
      return False
  return True


def primes(degree, bits, count, skip=0, up=False):
  """`count` primes = 1 mod 2*degree just below (or above) 2**bits."""
  step = 2 * degree
  x = (1 << bits) // step * step + 1
  if up:
    x += step if x <= 1 << bits else 0
  out = []
  while len(out) < count + skip:
    if not up and x >= 1 << bits:
      x -= step
      continue
    if x < 3:
      raise ValueError("no such primes")
    if is_prime(x):
      out.append(x)
    x += step if up else -step
  return out[skip:]


class Script(ckks_random.RandomSource):
  """Draws chosen by the exploration; records them. Streams are cycled."""

  def __init__(self, gauss=0, ternary=0, uniform=None, sparse=None, salt=1):
    mk = lambda v: itertools.cycle([v] if isinstance(v, int) else [int(x) for x in v])
    self.g, self.t = mk(gauss), mk(ternary)
    self.u = mk(uniform) if uniform is not None else None
    self.salt, self.ctr, self.sparse = salt, 0, sparse
    self.drawn = {"gauss": [], "ternary": [], "uniform": [], "sparse": []}

  @staticmethod
  def _spread(c, moduli):
    return np.array([[int(x) % q for x in c] for q in moduli], dtype=np.uint64).T

  def gen_gaussian_poly(self, degree, moduli, sigma=3.19):
    c = [next(self.g) for _ in range(degree)]
    self.drawn["gauss"].append(c)
    return self._spread(c, [int(q) for q in moduli])

  def gen_ternary_poly(self, degree, moduli):
    c = [next(self.t) for _ in range(degree)]
    self.drawn["ternary"].append(c)
    return self._spread(c, [int(q) for q in moduli])

  def gen_uniform_poly(self, degree, moduli):
    rows = []
    for q in moduli:
      row = []
      for _ in range(degree):
        if self.u is not None:
          row.append(next(self.u) % int(q))
        else:
          self.ctr += 1
          row.append(((self.ctr * 0x9E3779B97F4A7C15 + self.salt * 0xBF58476D1CE4E5B9) >> 7) % int(q))
      rows.append(row)
    self.drawn["uniform"].append(rows)
    return np.array(rows, dtype=np.uint64).T

  def gen_sparse_binary(self, degree, weight, moduli):
    c = list(self.sparse) if self.sparse is not None else [1] * weight + [0] * (degree - weight)
    self.drawn["sparse"].append(c)
    return self._spread(c, [int(q) for q in moduli])


def crt(res, moduli):
  """residues (last axis = moduli) -> object array of integers mod prod."""
  res = np.asarray(res).astype(object)
  q = math.prod(int(m) for m in moduli)
  out = np.zeros(res.shape[:-1], dtype=object)
  for i, m in enumerate(moduli):
    m = int(m)
    p = q // m
    out = out + res[..., i] * (p * pow(p, -1, m))
  return out % q


def crt_centered(res, moduli):
  q = math.prod(int(m) for m in moduli)
  x = crt(res, moduli)
  return np.where(x > q // 2, x - q, x)


def root_for(values_of_x, q):
  """The primitive root an NTT uses, read off the transform of the polynomial X."""
  return int(values_of_x[0]) % q


def eval_odd(coeffs, psi, q):
  """Reference NTT: [sum c_j psi^((2i+1) j)] for i in range(n)."""
  n = len(coeffs)
  pw = [pow(psi, e, q) for e in range(2 * n)]
  return [sum(int(coeffs[j]) * pw[(2 * i + 1) * j % (2 * n)] for j in range(n)) % q for i in range(n)]


def negacyclic(a, b, q):
  n = len(a)
  out = [0] * n
  for i, x in enumerate(a):
    if not x:
      continue
    for j, y in enumerate(b):
      if i + j < n:
        out[i + j] += int(x) * int(y)
      else:
        out[i + j - n] -= int(x) * int(y)
  return [v % q for v in out]


def automorphism(c, g, q):
  """c(X^g) mod X^n + 1."""
  n = len(c)
  out = [0] * n
  for i, v in enumerate(c):
    e = i * g % (2 * n)
    if e < n:
      out[e] = (out[e] + int(v)) % q
    else:
      out[e - n] = (out[e - n] - int(v)) % q
  return out
