"""Helpers shared by the CGGI checks (imported inside shards only)."""
import itertools

import jax.numpy as jnp
import numpy as np

from jaxite.jaxite_cggi import random_source
from mc import ref

M32 = (1 << 32) - 1


class Script(random_source.RandomSource):
  """A random source whose every draw is chosen by the exploration.

  Each stream is either a constant, or a sequence that is cycled.
  """

  def __init__(self, uniform=0, normal=0, sk=0):
    self.streams = {}
    for name, v in (("uniform", uniform), ("normal", normal), ("sk", sk)):
      self.streams[name] = itertools.cycle(
          [v] if isinstance(v, int) else [int(x) for x in v])
    self.drawn = {"uniform": [], "normal": [], "sk": []}

  def _draw(self, name, shape, dtype):
    shape = tuple(int(d) for d in shape)
    n = int(np.prod(shape)) if shape else 1
    vals = [next(self.streams[name]) for _ in range(n)]
    self.drawn[name].extend(vals)
    arr = np.array([v & M32 for v in vals], dtype=np.uint32).reshape(shape)
    if np.dtype(dtype) == np.int32:
      arr = arr.view(np.int32)
    else:
      arr = arr.astype(dtype)
    return jnp.asarray(arr)

  def uniform(self, shape=(1,), dtype=jnp.uint32):
    return self._draw("uniform", shape, dtype)

  def rounded_normal(self, shape=(1,), dtype=jnp.uint32):
    return self._draw("normal", shape, dtype)

  def sk_uniform(self, shape=(1,), dtype=jnp.uint32):
    return self._draw("sk", shape, dtype)


def words(n, salt=1):
  """n distinct, well spread 32-bit words (a Weyl sequence; no randomness)."""
  return [((i + 1) * 0x9E3779B1 + salt * 0x85EBCA6B) & M32 for i in range(n)]


def rlwe_phase(ct, key):
  """b - sum a_i s_i over uint32; ct (k+1, N), key (k, N)."""
  ct = np.asarray(ct).astype(np.uint32)
  key = np.asarray(key).astype(np.uint32)
  out = ct[-1].copy()
  for a, s in zip(ct[:-1], key):
    out = out - ref.negacyclic_u32(a, s)
  return out


def lwe_phase(ct, key):
  ct = np.asarray(ct).astype(np.uint32)
  key = np.asarray(key).astype(np.uint32)
  return np.uint32((int(ct[-1]) - int((ct[:-1].astype(object) * key.astype(object)).sum())) & M32)


def signed(x):
  """uint32 array -> signed int64."""
  return np.asarray(x).astype(np.uint32).view(np.int32).astype(np.int64)
