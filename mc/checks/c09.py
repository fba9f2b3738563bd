"""Homomorphic selection and rotation: external product, CMUX, blind rotation, extraction."""
import itertools

PROPERTY = "C09"
RULE = (
    "every selector bit x ciphertexts over a mask alphabet x (k, N, base, levels) in "
    "bounds; every rotation index in [0, 2N) x every LWE key of dimension 2 and 4 x "
    "the three key formats (unrolled, plain, byte-expanded); phases under the secret "
    "key compared coefficient by coefficient with the plain operation, exactly where "
    "the decomposition is exact and the noise is zero, else within the worst-case bound")
M32 = (1 << 32) - 1


def trunc_bound(b, l):
  r = 32 % b
  unit = 1 << (32 - l * b)
  base = 1 << b
  return (base // 2) * (unit - (1 << r)) // (base - 1) + ((1 << r) >> 1)


def product_bound(k, n, b, l, m, noise):
  """Worst error of m*ct through a gadget product, per coefficient."""
  return m * trunc_bound(b, l) * (1 + k * n) + (k + 1) * l * n * (1 << (b - 1)) * noise


def bits_for(kn, which):
  return [[1] * kn, [i % 2 for i in range(kn)], [(i // 2) % 2 for i in range(kn)],
          [0] * (kn - 1) + [1]][which]


def expand(message):
  """u32 -> u8 (..., 4, 4) lower-triangular byte Toeplitz."""
  import numpy as np
  m = np.asarray(message)
  out = np.zeros(m.shape + (4, 4), dtype=np.uint8)
  for p in range(4):
    for q in range(p + 1):
      out[..., p, q] = (m >> np.uint32(8 * (p - q))) & np.uint32(255)
  return out


def selection(ctx, ks):
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_cggi import bootstrap as bs
  from jaxite.jaxite_cggi import decomposition
  from jaxite.jaxite_cggi import parameters
  from jaxite.jaxite_cggi import rgsw
  from jaxite.jaxite_cggi import rlwe
  from mc import cggi
  for k, n, (b, l) in itertools.product(ks, (1, 2, 4, 8), ((4, 8), (8, 4), (1, 32), (4, 6), (6, 5), (8, 2), (3, 4))):
    if ctx.quick and b == 1 and n not in (2, 8):
      continue
    prm = parameters.SchemeParameters(3, 2 ** 32, k, n)
    dp = decomposition.DecompositionParameters(b, l)
    for kb, (noise, m) in itertools.product(range(4), ((0, 0), (0, 1), (0, 3), (2, 0), (2, 1))):
      bits = bits_for(k * n, kb)
      sk = rgsw.gen_key(prm, cggi.Script(sk=bits))
      data = np.asarray(sk.key.data)
      src = cggi.Script(uniform=cggi.words(1009, m + 3 * kb), normal=[noise, -noise, noise, 0])
      g = rgsw.encrypt(rgsw.RgswPlaintext(n, jnp.uint32(m)), sk, dp, src)
      batg = jnp.asarray(expand(g.message))
      cts = []
      for salt in range(3):
        cts.append(np.array(cggi.words((k + 1) * n, salt + 5), dtype=np.uint32).reshape(k + 1, n))
      cts += [np.full((k + 1, n), v, dtype=np.uint32) for v in (0, 1, 0x7FFFFFFF, 0x80000000, M32, 0x88888888, 0x77777777)]
      lim = product_bound(k, n, b, l, m, noise)
      if m == 3:
        cts = cts[:4]
      key = f"ext:k{k}n{n}b{b}l{l}"
      for ct in cts:
        with ctx.impl(key):
          out = bs.external_product(g, rlwe.RlweCiphertext(32, n, jnp.asarray(ct)), dp)
          want = cggi.rlwe_phase(ct, data) * np.uint32(m)
          err = np.abs(cggi.signed(cggi.rlwe_phase(out.message, data) - want))
          ctx.check(err.max() <= lim, key, worst=int(err.max()), bound=lim, m=m, noise=noise, key_bits=bits)
          ctx.check(int(out.modulus_degree) == n and int(out.log_coefficient_modulus) == 32, key + ":meta")
          bat = bs.jit_external_product(batg, jnp.asarray(ct), dp, True)
          ctx.equal(key + ":bat", np.asarray(out.message).astype(np.uint32), np.asarray(bat).astype(np.uint32))
        ctx.cover(states=1, transitions=2, traces=2)
      if m > 1:
        continue
      for c0, c1 in itertools.permutations(cts[:5], 2):
        key = f"cmux:k{k}n{n}b{b}l{l}"
        with ctx.impl(key):
          out = bs.cmux(g, rlwe.RlweCiphertext(32, n, jnp.asarray(c0)),
                        rlwe.RlweCiphertext(32, n, jnp.asarray(c1)), dp)
          want = cggi.rlwe_phase(c1 if m else c0, data)
          err = np.abs(cggi.signed(cggi.rlwe_phase(out.message, data) - want))
          ctx.check(err.max() <= lim, key, worst=int(err.max()), bound=lim, m=m, noise=noise)
        ctx.cover(states=1, transitions=1, traces=1)
    ctx.outcome((k, n, b, l))
  z = jnp.zeros((2, 4), jnp.uint32)
  prm = parameters.SchemeParameters(3, 2 ** 32, 1, 4)
  dp = decomposition.DecompositionParameters(4, 8)
  sk = rgsw.gen_key(prm, cggi.Script(sk=[1]))
  g = rgsw.encrypt(rgsw.RgswPlaintext(4, jnp.uint32(1)), sk, dp, cggi.Script())
  ctx.raises("cmux:modulus mismatch", ValueError, lambda: bs.cmux(
      g, rlwe.RlweCiphertext(31, 4, z), rlwe.RlweCiphertext(30, 4, z), dp))
  ctx.raises("cmux:degree mismatch", ValueError, lambda: bs.cmux(
      g, rlwe.RlweCiphertext(31, 4, z), rlwe.RlweCiphertext(31, 8, z), dp))


def rotation(ctx, k, n, b, l, dims, noise, unroll=False):
  """X^{-(b - <a, s>)} * P for every index and every key."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_cggi import bootstrap as bs
  from jaxite.jaxite_cggi import decomposition
  from jaxite.jaxite_cggi import lwe
  from jaxite.jaxite_cggi import parameters
  from jaxite.jaxite_cggi import rgsw
  from jaxite.jaxite_cggi import rlwe
  from mc import cggi
  from mc import ref
  dp = decomposition.DecompositionParameters(b, l)
  for dim in dims:
    prm = parameters.SchemeParameters(dim, 2 ** 32, k, n)
    rsk = rgsw.gen_key(prm, cggi.Script(sk=[1, 0, 1, 1, 0, 0, 1]))
    data = np.asarray(rsk.key.data)
    keys = list(itertools.product((0, 1), repeat=dim)) if dim <= 4 else [
        (1,) * dim, tuple(i % 2 for i in range(dim)), tuple((i * i + i // 3) % 2 for i in range(dim))]
    poly = np.array(cggi.words(n, 9), dtype=np.uint32)
    masks = np.array(cggi.words(k * n, 4), dtype=np.uint32).reshape(k, n)
    cipher = np.concatenate([masks, poly[None]]).astype(np.uint32)
    ph0 = cggi.rlwe_phase(cipher, data)
    # all b in [0, 2N) with a few mask vectors; all single-position masks
    idx = []
    for rows in itertools.product(*[sorted({0, 1, n, 2 * n - 1})] * min(dim, 2)):
      a = (list(rows) * dim)[:dim]
      for bb in range(2 * n) if n <= 8 else sorted({0, 1, n // 2, n - 1, n, n + 1, 2 * n - 1}):
        idx.append(a + [bb])
    for pos in range(min(dim, 8)):
      for v in range(2 * n) if n <= 8 else (1, n - 1, n, 2 * n - 1):
        a = [0] * dim
        a[pos] = v
        idx.append(a + [3 % (2 * n)])
    idx = np.unique(np.array(idx, dtype=np.uint32), axis=0)
    if ctx.quick and dim > 2 and len(idx) > 60:
      idx = idx[:: len(idx) // 60 + 1]
    for fmt in ("bmmp", "plain", "bat"):
      for kbits in keys:
        src = cggi.Script(uniform=cggi.words(2003, 2), normal=[noise, -noise, 0])
        key = f"rotate:{fmt}:k{k}n{n}b{b}l{l}:d{dim}"
        with ctx.impl(key, key_bits=kbits):
          lsk = lwe.gen_key(prm, cggi.Script(sk=kbits))
          bsk = bs.gen_bootstrapping_key(lsk, rsk, dp, src, use_bmmp=fmt == "bmmp", use_bat=fmt == "bat")
          rot = jax.vmap(lambda ci: bs.jit_blind_rotate(
              jnp.asarray(cipher), ci, bsk.encrypted_lwe_sk_bits, 32, dp, bsk.use_bmmp, bsk.use_bat))
          outs = np.concatenate([np.asarray(rot(jnp.asarray(idx[s:s + 64]))) for s in range(0, len(idx), 64)])
          one = bs.blind_rotate(rlwe.RlweCiphertext(32, n, jnp.asarray(cipher)), jnp.asarray(idx[-1]), bsk, dp)
          ctx.equal(key + ":api", outs[-1].astype(np.uint32), np.asarray(one.message).astype(np.uint32))
          steps = dim // 2 if fmt == "bmmp" else dim
          lim = steps * (3 if fmt == "bmmp" else 2) * product_bound(k, n, b, l, 1, noise)
          if fmt == "bmmp":  # the factor multiplies noise by (X^a - 1) of three keys
            lim = steps * (trunc_bound(b, l) * 2 * (1 + k * n) + (k + 1) * l * n * (1 << (b - 1)) * noise * 6)
          for ci, out in zip(idx, outs):
            j = (int(ci[-1]) - sum(int(x) * s for x, s in zip(ci[:-1], kbits))) % (2 * n)
            want = np.array(ref.monomial(ph0, -j, 1 << 32), dtype=np.uint64).astype(np.uint32)
            err = np.abs(cggi.signed(cggi.rlwe_phase(out, data) - want))
            if not ctx.check(err.max() <= lim, key, index=ci.tolist(), key_bits=kbits, j=j,
                             worst=int(err.max()), bound=lim):
              break
          ctx.cover(states=len(idx), transitions=len(idx) * steps, traces=len(idx))
        ctx.outcome((fmt, kbits))
  for dim in (1, 3):
    prm = parameters.SchemeParameters(dim, 2 ** 32, k, n)
    rsk = rgsw.gen_key(prm, cggi.Script(sk=[1]))
    ctx.raises(f"rotate:odd:{dim}", ValueError, lambda: bs.gen_bootstrapping_key(
        lwe.gen_key(prm, cggi.Script(sk=[1])), rsk, dp, cggi.Script(), use_bmmp=True))
  ctx.sample({"k": k, "n": n, "base": b, "levels": l, "dims": dims, "noise": noise})


def bsk_rows(ctx):
  """The bootstrapping key encrypts exactly the (products of) key bits."""
  import numpy as np
  from jaxite.jaxite_cggi import bootstrap as bs
  from jaxite.jaxite_cggi import decomposition
  from jaxite.jaxite_cggi import lwe
  from jaxite.jaxite_cggi import parameters
  from jaxite.jaxite_cggi import rgsw
  from mc import cggi
  k, n, b, l = 1, 2, 8, 2
  dp = decomposition.DecompositionParameters(b, l)
  for dim in (2, 4, 6, 14, 20, 26, 28, 40, 42):  # around the 20-batch boundaries
    prm = parameters.SchemeParameters(dim, 2 ** 32, k, n)
    rsk = rgsw.gen_key(prm, cggi.Script(sk=[1, 1]))
    keys = list(itertools.product((0, 1), repeat=dim)) if dim <= 4 else [
        tuple((i * i + i // 3) % 2 for i in range(dim)), tuple((i // 2 + i) % 2 for i in range(dim)), (1,) * dim]
    for kbits, bm in itertools.product(keys, (True, False)):
      key = f"bsk:d{dim}:{'bmmp' if bm else 'plain'}"
      with ctx.impl(key):
        lsk = lwe.gen_key(prm, cggi.Script(sk=kbits))
        src = cggi.Script(uniform=cggi.words(2003, 7), normal=0)
        bsk = bs.gen_bootstrapping_key(lsk, rsk, dp, src, use_bmmp=bm)
        if bm:
          want = []
          for i in range(0, dim, 2):
            s, t = kbits[i], kbits[i + 1]
            want += [s * t, s * (1 - t), (1 - s) * t]
        else:
          want = list(kbits)
        got = []
        for j in range(len(want)):
          ct = rgsw.RgswCiphertext(bsk.encrypted_lwe_sk_bits[j], 32, n)
          got.append(int(rgsw.decrypt(ct, dp, rsk).message))
        ctx.equal(key, want, got, key_bits=kbits)
        ctx.check(bsk.encrypted_lwe_sk_bits.shape == (len(want), (k + 1) * l, k + 1, n), key + ":shape")
      ctx.cover(states=1, transitions=len(want), traces=len(want))
      ctx.outcome((dim, bm))


def extraction(ctx):
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_cggi import bootstrap as bs
  from jaxite.jaxite_cggi import parameters
  from jaxite.jaxite_cggi import rlwe
  from mc import cggi
  for k, n in itertools.product((1, 2, 3), (1, 2, 3, 4, 5, 8, 16)):
    prm = parameters.SchemeParameters(3, 2 ** 32, k, n)
    keys = list(itertools.product((0, 1), repeat=k * n)) if k * n <= 6 else [
        bits_for(k * n, i) for i in range(4)] + [np.eye(k * n, dtype=int)[i].tolist() for i in range(k * n)]
    cts = [np.array(cggi.words((k + 1) * n, s), dtype=np.uint32).reshape(k + 1, n) for s in range(3)]
    cts += [np.eye((k + 1) * n, dtype=np.uint32)[i].reshape(k + 1, n) * np.uint32(M32) for i in range((k + 1) * n)]
    exts = []
    for ct in cts:
      with ctx.impl(f"extract:k{k}n{n}"):
        exts.append(np.asarray(bs.sample_extract(rlwe.RlweCiphertext(32, n, jnp.asarray(ct)))))
    if len(exts) != len(cts):
      continue
    for bits in keys:
      sk = rlwe.gen_key(prm, cggi.Script(sk=bits))
      flat = rlwe.flatten_key(sk)
      for ct, e in zip(cts, exts):
        if not ctx.check(e.shape == (k * n + 1,), f"extract:k{k}n{n}", problem="shape"):
          continue
        ctx.check(int(cggi.lwe_phase(e, flat.key_data)) == int(cggi.rlwe_phase(ct, sk.data)[0]),
                  f"extract:k{k}n{n}", ct=ct, key_bits=bits)
        ctx.cover(states=1, traces=1)
    ctx.cover(transitions=len(cts))
    ctx.outcome((k, n))


SHARDS = {"selection": selection, "rotation": rotation, "extraction": extraction, "bsk": bsk_rows}


def shards(tier):
  out = [(f"selection@{k}", {"ks": [k]}) for k in (1, 2)] + [("extraction", {}), ("bsk", {})]
  out += [
      ("rotation@exact", {"k": 1, "n": 4, "b": 8, "l": 4, "dims": [2, 4], "noise": 0}),
      ("rotation@exact8", {"k": 1, "n": 8, "b": 4, "l": 8, "dims": [2], "noise": 0}),
      ("rotation@k2", {"k": 2, "n": 4, "b": 4, "l": 6, "dims": [2], "noise": 0}),
      ("rotation@noise", {"k": 1, "n": 4, "b": 4, "l": 6, "dims": [2], "noise": 3}),
      ("rotation@unroll", {"k": 1, "n": 16, "b": 8, "l": 4, "dims": [6, 16], "noise": 0}),
  ]
  if tier == "thorough":
    out += [("selection@3", {"ks": [3]}),
            ("rotation@big", {"k": 2, "n": 32, "b": 4, "l": 8, "dims": [2, 16], "noise": 1}),
            ("rotation@k3", {"k": 3, "n": 8, "b": 8, "l": 4, "dims": [4], "noise": 0})]
  return out
