"""Programmable bootstrapping evaluates the lookup table and resets the noise."""
import itertools

PROPERTY = "C11"
RULE = (
    "every table over a 2-bit message space (and structured tables over 1, 3 bits) x "
    "every message x extreme input noises x the three bootstrapping-key formats, "
    "compared with the table; every rotation index of every test polynomial compared "
    "with the table and its negacyclic extension; jitted and step-by-step bootstraps "
    "compared bit for bit; output noise compared with a worst-case bound that does not "
    "depend on the input noise")
M32 = (1 << 32) - 1


def tables(bits, mod, quick):
  n = 1 << bits
  if mod ** n <= 256:
    return list(itertools.product(range(mod), repeat=n))
  out = [[0] * n, [mod - 1] * n, list(range(n)), list(range(n))[::-1], [(3 * i + 1) % mod for i in range(n)],
         [(i * i) % mod for i in range(n)], [mod // 2] * n, [0, mod - 1] * (n // 2)]
  out += [[(mod - 1 if j == i else 0) for j in range(n)] for i in range(n)]
  return [tuple(t) for t in out]


def polynomials(ctx):
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_cggi import encoding
  from jaxite.jaxite_cggi import parameters
  from jaxite.jaxite_cggi import test_polynomial as tp
  from mc import cggi
  for n, bits, pad, total, k in itertools.product((4, 8, 32, 64), (1, 2, 3), (1, 2), (32, 16), (1, 2)):
    if (1 << bits) > n // 2:
      continue
    ep = encoding.EncodingParameters(total, bits, pad)
    prm = parameters.SchemeParameters(4, 2 ** total, k, n)
    blk = n >> bits
    space = 1 << (bits + pad)
    for t in tables(bits, 1 << bits, ctx.quick)[:: 5 if ctx.quick and bits == 2 and n > 8 else 1]:
      key = f"testpoly:n{n}:{bits}+{pad}/{total}"
      with ctx.impl(key):
        p = np.asarray(tp.gen_test_polynomial(jnp.array(t, dtype=jnp.uint32), ep, prm).message).astype(np.int64)
        if not ctx.check(p.shape == (n,), key, problem="shape"):
          continue
        for j in range(2 * n):
          c = int(p[j]) if j < n else -int(p[j - n])
          mm = ((j + blk // 2) // blk) % (2 << bits)
          f = t[mm] if mm < (1 << bits) else -t[mm - (1 << bits)]
          want = (f % space) << (total - bits - pad)
          if not ctx.check(c % (1 << total) == want, key, table=t, index=j, got=c % (1 << total), want=want):
            break
        ct = tp.gen_and_encrypt(jnp.array(t, dtype=jnp.uint32), ep, prm)
        ctx.equal(key + ":trivial", np.concatenate([np.zeros((k, n), np.int64), p[None]]),
                  np.asarray(ct.message).astype(np.int64))
      ctx.cover(states=2 * n, transitions=2, traces=2 * n)
      ctx.outcome((n, bits, pad))
    with ctx.impl(f"testpoly:identity:n{n}:{bits}"):
      a = tp.identity_test_polynomial(ep, prm).message
      b = tp.gen_test_polynomial(jnp.arange(1 << bits, dtype=jnp.uint32), ep, prm).message
      ctx.equal(f"testpoly:identity:n{n}:{bits}", b, a)
    for wrong in (0, 1, (1 << bits) - 1, (1 << bits) + 1, 2 << bits):
      if wrong != 1 << bits and wrong:
        ctx.raises(f"testpoly:length:n{n}:{bits}:{wrong}", ValueError, lambda: tp.gen_test_polynomial(
            jnp.zeros(wrong, dtype=jnp.uint32), ep, prm))


def trunc_bound(b, l):
  r = 32 % b
  unit = 1 << (32 - l * b)
  base = 1 << b
  return (base // 2) * (unit - (1 << r)) // (base - 1) + ((1 << r) >> 1)


def evaluate(ctx, fmt, n, k, bits, dim, bdec, kdec, noise, kidx):
  import jax
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_cggi import bootstrap as bs
  from jaxite.jaxite_cggi import decomposition
  from jaxite.jaxite_cggi import encoding
  from jaxite.jaxite_cggi import key_switch
  from jaxite.jaxite_cggi import lwe
  from jaxite.jaxite_cggi import parameters
  from jaxite.jaxite_cggi import rgsw
  from jaxite.jaxite_cggi import rlwe
  from jaxite.jaxite_cggi import test_polynomial as tp
  from mc import cggi
  ep = encoding.EncodingParameters(32, bits, 1)
  prm = parameters.SchemeParameters(dim, 2 ** 32, k, n)
  bdp = decomposition.DecompositionParameters(*bdec)
  kdp = decomposition.DecompositionParameters(*kdec)
  kbits = [[(i + 1) % 2 for i in range(dim)], [1] * dim, [(i // 2) % 2 for i in range(dim)], [0] * dim][kidx]
  lsk = lwe.gen_key(prm, cggi.Script(sk=kbits))
  rsk = rgsw.gen_key(prm, cggi.Script(sk=[1, 0, 1, 1, 0]))
  rlsk = rsk.to_rlwe_secret_key()
  src = cggi.Script(uniform=cggi.words(4001, kidx), normal=[noise, -noise, 0, noise])
  bsk = bs.gen_bootstrapping_key(lsk, rsk, bdp, src, use_bmmp=fmt == "bmmp", use_bat=fmt == "bat")
  ksk = key_switch.gen_key(kdp, src, rlwe.flatten_key(rlsk), lsk)

  # the largest input noise the block width tolerates after the modulus switch
  blk = n >> bits
  room = blk // 2 - (1 + dim) // 2 - 1
  assert room >= 1, "bad harness parameters"
  emax = room * ((1 << 32) // (2 * n)) - 1
  noises = [0, 1, -1, emax, -emax]
  # worst-case output noise
  b, l = bdec
  steps = dim // 2 if fmt == "bmmp" else dim
  rows = (k + 1) * l * n * (1 << (b - 1)) * noise
  br = steps * (trunc_bound(b, l) * 2 * (1 + k * n) + rows * (6 if fmt == "bmmp" else 2))
  lim = br + k * n * (trunc_bound(*kdec) + kdec[1] * (1 << (kdec[0] - 1)) * noise)
  if lim >= 1 << (32 - bits - 2):
    raise AssertionError(f"harness: bound {lim} too large to decode")

  inputs, meta = [], []
  for m, e in itertools.product(range(1 << bits), noises):
    for salt in (0, 1):
      s = cggi.Script(uniform=cggi.words(dim, 11 * m + salt), normal=e)
      inputs.append(np.asarray(lwe.encrypt(encoding.encode(jnp.uint32(m), ep), lsk, s)))
      meta.append((m, e))
  inputs = jnp.asarray(np.stack(inputs))
  tabs = tables(bits, 1 << bits, ctx.quick)
  run = jax.jit(jax.vmap(lambda ct, poly: bs.jit_bootstrap(
      ct, poly, bsk.encrypted_lwe_sk_bits, ksk.key_data, kdp, bdp, prm, bsk.use_bmmp, bsk.use_bat),
                         in_axes=(0, None)))
  for t in tabs:
    key = f"pbs:{fmt}:n{n}k{k}b{bits}d{dim}"
    with ctx.impl(key):
      poly = tp.gen_and_encrypt(jnp.array(t, dtype=jnp.uint32), ep, prm)
      outs = np.asarray(run(inputs, poly.message)).astype(np.uint32)
      ctx.check(outs.shape == (len(meta), dim + 1), key, problem="shape", got=outs.shape)
      for (m, e), out in zip(meta, outs):
        ph = int(cggi.lwe_phase(out, kbits))
        want = t[m] << (31 - bits)
        err = (ph - want + (1 << 31)) % (1 << 32) - (1 << 31)
        if not ctx.check(abs(err) <= lim, key, table=t, m=m, noise=e, key_bits=kbits, error=err, bound=lim):
          break
        ctx.check(int(encoding.decode(lwe.decrypt(jnp.asarray(out), lsk, ep), ep)) == t[m]
                  if t is tabs[0] else True, key + ":decode", table=t, m=m)
    ctx.cover(states=len(meta), transitions=len(meta), traces=len(meta))
    ctx.outcome(tuple(t))
  # step by step, with the observer
  for t in (tabs[0], tabs[len(tabs) // 2], tabs[-1]):
    poly = tp.gen_and_encrypt(jnp.array(t, dtype=jnp.uint32), ep, prm)
    for i in (0, len(meta) // 2, len(meta) - 1):
      seen = []
      key = f"pbs:steps:{fmt}"
      with ctx.impl(key):
        a = bs.bootstrap(inputs[i], poly, bsk, ksk, kdp, bdp, prm,
                         callback=lambda name, val, **kw: seen.append((name, np.asarray(val), kw)), tag=7)
        plain = bs.bootstrap(inputs[i], poly, bsk, ksk, kdp, bdp, prm)
        c = bs.jit_bootstrap(inputs[i], poly.message, bsk.encrypted_lwe_sk_bits, ksk.key_data,
                             kdp, bdp, prm, bsk.use_bmmp, bsk.use_bat)
        ctx.equal(key + ":jit", np.asarray(a), np.asarray(c))
        ctx.equal(key + ":nocallback", np.asarray(a), np.asarray(plain))
        names = [s[0] for s in seen]
        ctx.equal(key + ":names", ["initial", "approx_ciphertext", "rotated", "extracted", "key_switched"], names)
        ctx.check(all(s[2] == {"tag": 7} for s in seen), key + ":kwargs")
        if len(seen) == 5:
          ctx.equal(key + ":initial", np.asarray(inputs[i]), seen[0][1])
          ctx.equal(key + ":final", np.asarray(a), seen[4][1])
          # the stages agree with one another under the secret keys
          rot0 = int(cggi.rlwe_phase(seen[2][1], rlsk.data)[0])
          ext = int(cggi.lwe_phase(seen[3][1], rlwe.flatten_key(rlsk).key_data))
          ctx.check(rot0 == ext, key + ":stages", rotated=rot0, extracted=ext)
      ctx.cover(states=1, transitions=3, traces=3)
  ctx.sample({"format": fmt, "n": n, "tables": len(tabs), "inputs": len(meta), "noise": noise})


SHARDS = {"polynomials": polynomials, "evaluate": evaluate}


def shards(tier):
  out = [("polynomials", {})]
  def ev(name, **kw):
    base = dict(n=64, k=1, bits=2, dim=4, bdec=[8, 4], kdec=[8, 4], noise=0, kidx=0)
    base.update(kw)
    out.append((f"evaluate@{name}", base))
  for fmt in ("bmmp", "plain", "bat"):
    ev(f"{fmt}2", fmt=fmt)
    ev(f"{fmt}noise", fmt=fmt, noise=2, bdec=[4, 6], kdec=[4, 6], kidx=1)
  ev("three", fmt="bmmp", bits=3, n=64, dim=4, kidx=2)
  ev("k2", fmt="bmmp", bits=2, n=64, k=2, dim=2, bdec=[4, 6], kdec=[4, 5], kidx=0)
  ev("one", fmt="plain", bits=1, n=32, dim=4, kidx=3)
  if tier == "thorough":
    for fmt, kidx in itertools.product(("bmmp", "plain", "bat"), range(4)):
      ev(f"{fmt}k{kidx}", fmt=fmt, kidx=kidx, dim=6, n=128, noise=1, bdec=[4, 8], kdec=[4, 8])
    ev("b3", fmt="bmmp", bits=3, n=256, dim=8, noise=1, bdec=[4, 6], kdec=[4, 6])
  return out
