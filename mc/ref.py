"""Reference models: plain Python/numpy, written from the documentation."""

import numpy as np

M32 = (1 << 32) - 1


def centered(x, mod):
  """x mod `mod` as the representative in [-mod/2, mod/2)."""
  x = int(x) % mod
  return x - mod if x >= mod // 2 + (mod & 1) else x


def lwe_phase(ct, key, log_mod=32):
  ct = np.asarray(ct).astype(np.uint64)
  key = np.asarray(key).astype(np.uint64)
  s = int(np.sum(ct[:-1] * key, dtype=np.uint64)) if len(key) else 0
  return (int(ct[-1]) - s) % (1 << log_mod)


def negacyclic(a, b, mod):
  """Schoolbook product in Z_mod[X]/(X^N+1), Python integers."""
  n = len(a)
  out = [0] * n
  for i, x in enumerate(a):
    x = int(x)
    if x:
      for j, y in enumerate(b):
        k = i + j
        if k < n:
          out[k] += x * int(y)
        else:
          out[k - n] -= x * int(y)
  return [v % mod for v in out]


def negacyclic_u32(a, b):
  """Same, vectorised over uint32 (wrapping)."""
  a = np.asarray(a, dtype=np.uint64) & np.uint64(M32)
  b = np.asarray(b, dtype=np.uint64) & np.uint64(M32)
  n = a.shape[-1]
  out = np.zeros(np.broadcast_shapes(a.shape, b.shape), dtype=np.uint64)
  for i in range(n):
    r = np.roll(b, i, axis=-1)
    if i:
      r = r.copy()
      r[..., :i] = (np.uint64(1 << 32) - r[..., :i]) & np.uint64(M32)
    out = (out + a[..., i:i + 1] * r) & np.uint64(M32)
  return out.astype(np.uint32)


def monomial(poly, degree, mod):
  n = len(poly)
  out = [0] * n
  for i, c in enumerate(poly):
    k = (i + degree) % (2 * n)
    if k < n:
      out[k] = int(c) % mod
    else:
      out[k - n] = -int(c) % mod
  return out
