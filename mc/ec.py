"""Reference arithmetic for jaxite_ec, in Python integers (independent of the code under test)."""
import itertools

import numpy as np

P = 0x01AE3A4617C510EAC63B05C06CA1493B1A22D9F300F5138F1EF3622FBA094800170B5D44300000008508C00000000001
R = 0x12AB655E9A2CA55660B44D1E5C37B00159AA76FED00000010A11800000000001
G = (0x008848DEFE740A67C8FC6225BF87FF5485951E2CAA9D41BB188282C8BD37CB5CD5481512FFCD394EEAB9B16EB21BE9EF,
     0x01914A69C5102EFF1F674F5D30AFEEC4BD7FB348CA3E52D96D182AD44FB82305C2FE3D3634A9591AFD82DE55559C8EA6)
D = 122268283598675559488486339158635529096981886914877139579534153582033676785385790730042363341236035746924960903179
S = 10189023633222963290707194929886294091415157242906428298294512798502806398782149227503530278436336312243746741931
T = 23560188534917577818843641916571445935985386319233886518929971599490231428764380923487987729215299304184915158756


def inv(x, p=P):
  return pow(x, -1, p)


# -- y^2 = x^3 + a x + b, affine; None is the neutral element -----------------
def wadd(u, v, a=0, p=P):
  if u is None:
    return v
  if v is None:
    return u
  if u[0] == v[0]:
    if (u[1] + v[1]) % p == 0:
      return None
    s = (3 * u[0] * u[0] + a) * inv(2 * u[1], p) % p
  else:
    s = (v[1] - u[1]) * inv(v[0] - u[0], p) % p
  x = (s * s - u[0] - v[0]) % p
  return (x, (s * (u[0] - x) - u[1]) % p)


def wneg(u, p=P):
  return None if u is None else (u[0], -u[1] % p)


def wmul(k, u, a=0, p=P):
  """k*u; k any integer."""
  if k < 0:
    return wmul(-k, wneg(u, p), a, p)
  r = None
  while k:
    if k & 1:
      r = wadd(r, u, a, p)
    u = wadd(u, u, a, p)
    k >>= 1
  return r


# -- -x^2 + y^2 = 1 + d x^2 y^2, affine; (0, 1) is the neutral element ---------
def tadd(u, v, d=D, p=P):
  k = d * u[0] * v[0] * u[1] * v[1] % p
  return ((u[0] * v[1] + u[1] * v[0]) * inv(1 + k, p) % p,
          (u[1] * v[1] + u[0] * v[0]) * inv(1 - k, p) % p)


def tneg(u, p=P):
  return (-u[0] % p, u[1])


def to_twisted(u):
  if u is None:
    return (0, 1)
  xm, ym = S * (u[0] + 1) % P, S * u[1] % P
  return (xm * inv(ym) * T % P, (xm - 1) * inv(xm + 1) % P)


_MULT = {}


def mult(k):
  """kG, cached."""
  k %= R
  if k not in _MULT:
    _MULT[k] = wmul(k, G)
  return _MULT[k]


_TW = {}


def tmult(k):
  k %= R
  if k not in _TW:
    _TW[k] = to_twisted(mult(k))
  return _TW[k]


# -- representations -----------------------------------------------------------
def xyzz(u, lam=1):
  """(x l^2, y l^3, l^2, l^3)."""
  l2 = lam * lam % P
  l3 = l2 * lam % P
  return [u[0] * l2 % P, u[1] * l3 % P, l2, l3]


def from_xyzz(c):
  """Affine point of four integers (any representatives), or None if zz = 0, or 'bad'."""
  x, y, zz, zzz = [v % P for v in c]
  if zz == 0 or zzz == 0:
    return None if zz == zzz == 0 else "bad"
  if pow(zz, 3, P) != zzz * zzz % P:
    return "bad"
  return (x * inv(zz) % P, y * inv(zzz) % P)


def ext(u, lam=1):
  """Extended twisted coordinates (x l, y l, l, x y l)."""
  return [u[0] * lam % P, u[1] * lam % P, lam % P, u[0] * u[1] % P * lam % P]


def from_ext(c):
  x, y, z, t = [v % P for v in c]
  if z == 0 or x * y % P != z * t % P:
    return "bad"
  i = inv(z)
  return (x * i % P, y * i % P)


# -- number formats ----------------------------------------------------------
def chunks(vals, n=25):
  """Integers -> (len, n) uint16, little endian."""
  return np.frombuffer(b"".join(int(v).to_bytes(2 * n, "little") for v in vals),
                       dtype="<u2").reshape(len(vals), n).copy()


def unchunk(a, bits=16):
  """(..., n) chunks -> list of integers."""
  a = np.asarray(a)
  size = {8: "<u1", 16: "<u2", 32: "<u4"}[bits]
  if (a.astype(np.int64) >> bits).any():
    raise ValueError("chunk out of range")
  flat = a.reshape(-1, a.shape[-1]).astype(size)
  return [int.from_bytes(r.tobytes(), "little") for r in flat]


class Rns:
  """The residue number system with the given moduli."""

  def __init__(self, moduli):
    self.moduli = [int(m) for m in moduli]
    self.m = 1
    for x in self.moduli:
      self.m *= x
    self.f = []
    for x in self.moduli:
      h = self.m // x
      self.f.append(h * pow(h % x, -1, x) % self.m)

  def to(self, vals):
    return np.array([[v % x for x in self.moduli] for v in vals], dtype=np.uint16)

  def back(self, a):
    """(..., 50) residues (not necessarily reduced) -> list of integers in [0, M)."""
    a = np.asarray(a)
    flat = a.reshape(-1, a.shape[-1])
    obj = flat.astype(object)
    return [int(v) % self.m for v in obj.dot(np.array(self.f, dtype=object))]


def lams(n):
  """n projective factors: small ones, powers of two, neighbours of p, then powers of 3."""
  out = [1, 2, P - 1, P - 2, (P + 1) // 2, 1 << 16, 1 << 376, (1 << 376) - 1, P // 3, 65535]
  v = 3
  while len(out) < n:
    out.append(v)
    v = v * 3 % P
  return out[:n]


def batched(fn, *arrs, axis=0, size=64):
  """fn on slices of `size` along `axis` (batched products cost quadratically here); the last one is padded."""
  n = arrs[0].shape[axis]
  out = []
  for i in range(0, n, size):
    part = [np.take(a, [min(j, n - 1) for j in range(i, i + size)], axis=axis) for a in arrs]
    out.append(np.asarray(fn(*part)))
  return np.take(np.concatenate(out, axis=axis), range(n), axis=axis)
