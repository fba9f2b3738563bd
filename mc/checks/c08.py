"""Encrypt then decrypt returns the message; ciphertexts add like messages."""
import itertools

PROPERTY = "C08"
RULE = (
    "every message of every message space in bounds x every secret key of small "
    "dimension x mask words from a carry alphabet x every noise in the extreme set "
    "{0, +-1, +-(2^(err-1)-1), -2^(err-1)}; LWE, RLWE and RGSW; sums and integer "
    "multiples of ciphertexts against the same operations on messages")
M32 = (1 << 32) - 1
MASKS = [0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x01020304, 0xFEDCBA98]


def noises(err_bits):
  if err_bits == 0:
    return [0]
  half = 1 << (err_bits - 1)
  return sorted({x for x in (0, 1, -1, half - 1, -half, 1 - half) if -half <= x < half})


def lwe_all(ctx, dims, encs):
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_cggi import encoding
  from jaxite.jaxite_cggi import lwe
  from jaxite.jaxite_cggi import parameters
  from mc import cggi
  for dim, (total, msg, pad) in itertools.product(dims, encs):
    ep = encoding.EncodingParameters(total, msg, pad)
    prm = parameters.SchemeParameters(dim, 2 ** total, 1, 4)
    keys = list(itertools.product((0, 1), repeat=dim)) if dim <= 3 else [
        (0,) * dim, (1,) * dim, tuple(i % 2 for i in range(dim)), (1,) + (0,) * (dim - 1)]
    messages = range(1 << msg) if msg <= 5 else sorted(
        {0, 1, (1 << msg) - 1, 1 << (msg - 1), (1 << (msg - 1)) - 1})
    shifts = range(len(MASKS)) if ctx.thorough else range(0, len(MASKS), 3)
    for kbits in keys:
      sk = lwe.gen_key(prm, cggi.Script(sk=kbits))
      ctx.equal("lwe:key", kbits, sk.key_data)
      for sh in shifts:
        masks = MASKS[sh:] + MASKS[:sh]
        for e in noises(ep.error_bit_length):
          src = cggi.Script(uniform=masks, normal=e)
          for m in messages:
            key = f"lwe:d{dim}:{total}/{msg}/{pad}"
            with ctx.impl(key, key_bits=kbits, noise=e, m=m):
              pt = encoding.encode(jnp.uint32(m), ep)
              ct = lwe.encrypt(pt, sk, src)
              ctx.check(np.asarray(ct).shape == (dim + 1,), key, problem="shape")
              got = encoding.decode(lwe.decrypt(ct, sk, ep), ep)
              ctx.check(int(got) == m, key, m=m, got=int(got), key_bits=kbits, noise=e, masks=masks[:dim])
              ph = int(lwe.decrypt_without_denoising(ct, sk))
              want = ((m << ep.error_bit_length) + e) % (1 << total)
              ctx.check(ph == want, key + ":phase", m=m, got=ph, want=want, noise=e, key_bits=kbits)
              # the ciphertext itself, under an independent reading of the scheme
              ind = int(cggi.lwe_phase(ct, kbits)) % (1 << total)
              ctx.check(ind == want, key + ":ciphertext", m=m, got=ind, want=want)
            ctx.cover(states=1, transitions=3, traces=1)
      for m in messages:
        for emb_dim in (dim,):
          ct = lwe.noiseless_embedding(encoding.encode(jnp.uint32(m), ep), emb_dim)
          got = encoding.decode(lwe.decrypt(ct, sk, ep), ep)
          ctx.check(np.asarray(ct).shape == (dim + 1,) and int(got) == m, f"lwe:embed:d{dim}", m=m, got=int(got))
          ctx.cover(states=1, transitions=2, traces=1)
    ctx.outcome((dim, total, msg, pad))
    ctx.sample({"dim": dim, "encoding": (total, msg, pad), "keys": len(keys)})


def lwe_sums(ctx):
  """Linear combinations of ciphertexts, all coefficient vectors in {-1,0,1,2,3}^2."""
  import jax.numpy as jnp
  from jaxite.jaxite_cggi import encoding
  from jaxite.jaxite_cggi import lwe
  from jaxite.jaxite_cggi import parameters
  from mc import cggi
  for total, msg, pad in ((32, 3, 1), (32, 2, 2), (32, 4, 0), (16, 3, 1)):
    ep = encoding.EncodingParameters(total, msg, pad)
    prm = parameters.SchemeParameters(5, 2 ** total, 1, 4)
    sk = lwe.gen_key(prm, cggi.Script(sk=[1, 0, 1, 1, 0]))
    src = cggi.Script(uniform=cggi.words(97), normal=[3, -2, 1, 0, -4])
    n = 1 << msg
    cts = [lwe.encrypt(encoding.encode(jnp.uint32(m), ep), sk, src) for m in range(n)]
    space = 1 << (msg + pad)
    for a, b in itertools.product((-1, 0, 1, 2, 3), repeat=2):
      for x, y in itertools.product(range(n), repeat=2):
        ct = (jnp.uint32(a & M32) * cts[x] + jnp.uint32(b & M32) * cts[y]).astype(jnp.uint32)
        key = f"lwe:sum:{total}/{msg}/{pad}"
        with ctx.impl(key):
          got = int(encoding.decode_without_removing_padding(
              lwe.decrypt(ct, sk, ep), ep))
          want = (a * x + b * y) % space
          ctx.check(got == want, key, a=a, b=b, x=x, y=y, got=got, want=want)
        ctx.cover(states=1, transitions=2, traces=1)
    ctx.outcome((total, msg, pad))


def rlwe_all(ctx, ks):
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_cggi import encoding
  from jaxite.jaxite_cggi import lwe
  from jaxite.jaxite_cggi import parameters
  from jaxite.jaxite_cggi import rlwe
  from mc import cggi
  for k, n, (total, msg, pad) in itertools.product(
      ks, (1, 2, 4, 8), ((32, 3, 1), (32, 6, 1), (26, 14, 2), (16, 2, 0))):
    ep = encoding.EncodingParameters(total, msg, pad)
    prm = parameters.SchemeParameters(3, 2 ** total, k, n)
    keys = list(itertools.product((0, 1), repeat=k * n)) if k * n <= 4 else [
        (1,) * (k * n), tuple(i % 2 for i in range(k * n)), (0,) * (k * n - 1) + (1,),
        tuple(int(b) for b in bin(0x5A96C3 | 1 << 30)[2:][: k * n])]
    top = (1 << msg) - 1
    msgs = [np.resize(np.array(v, dtype=np.uint32), n) for v in (
        [0], [top], [1], [0, top], [top, 0], [1, top // 2, top // 2 + 1, top])]
    msgs += [np.eye(n, dtype=np.uint32)[i] * np.uint32(top) for i in range(n)]
    for kbits in keys:
      sk = rlwe.gen_key(prm, cggi.Script(sk=kbits))
      key = f"rlwe:k{k}n{n}:{total}/{msg}/{pad}"
      flat = rlwe.flatten_key(sk)
      ctx.equal(key + ":flatten", kbits, flat.key_data)
      ctx.check(int(flat.lwe_dimension) == k * n and int(flat.log_modulus) == total, key + ":flatten")
      for e in noises(ep.error_bit_length):
        src = cggi.Script(uniform=MASKS, normal=[e, 0, -1 if e else 0])
        for m in msgs:
          with ctx.impl(key, key_bits=kbits, noise=e):
            pt = rlwe.RlwePlaintext(total, n, encoding.encode(jnp.asarray(m), ep))
            before = len(src.drawn["normal"])
            ct = rlwe.encrypt(pt, sk, src)
            out = rlwe.decrypt(ct, sk, ep)
            got = np.array([int(encoding.decode(c, ep)) for c in np.asarray(out.message)])
            ctx.equal(key, m, got, key_bits=kbits, noise=e)
            ph = cggi.rlwe_phase(ct.message, sk.data).astype(np.int64) % (1 << total)
            want = m.astype(np.int64) << ep.error_bit_length
            err = (ph - want + (1 << (total - 1))) % (1 << total) - (1 << (total - 1))
            ctx.equal(key + ":noise", sorted(src.drawn["normal"][before:]), sorted(err.tolist()))
            ctx.check(int(ct.modulus_degree) == n and int(ct.log_coefficient_modulus) == total
                      and tuple(ct.message.shape) == (k + 1, n), key + ":shape")
          ctx.cover(states=1, transitions=2, traces=1)
    ctx.outcome((k, n, total))


def rgsw_all(ctx):
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_cggi import decomposition
  from jaxite.jaxite_cggi import parameters
  from jaxite.jaxite_cggi import rgsw
  from mc import cggi
  for k, n, (b, l) in itertools.product((1, 2, 3), (2, 4, 8), ((4, 8), (8, 4), (4, 6), (2, 5), (8, 1))):
    if ctx.quick and k == 3 and (b, l) not in ((4, 6), (8, 1)):
      continue
    prm = parameters.SchemeParameters(3, 2 ** 32, k, n)
    dp = decomposition.DecompositionParameters(b, l)
    for kb in range(3):
      bits = [[1] * (k * n), [(i + 1) % 2 for i in range(k * n)], [0] * (n * (k - 1)) + [1] + [0] * (n - 1)][kb]
      sk = rgsw.gen_key(prm, cggi.Script(sk=bits))
      msgs = range(1 << b) if b <= 4 else (0, 1, 2, 127, 128, 255)
      if kb or n != 4:
        msgs = (0, 1, (1 << b) - 1)
      amp = max(1, 1 << max(0, 32 - b - 4 - n.bit_length()))
      for m, nz in itertools.product(msgs, ([0], [1, -1, 2], [amp, -amp])):
        src = cggi.Script(uniform=cggi.words(1009, m), normal=nz)
        key = f"rgsw:k{k}n{n}b{b}l{l}"
        with ctx.impl(key):
          ct = rgsw.encrypt(rgsw.RgswPlaintext(n, jnp.uint32(m)), sk, dp, src)
          out = rgsw.decrypt(ct, dp, sk)
          if nz != [amp, -amp]:
            ctx.check(int(out.message) == m, key, m=m, got=int(out.message), noise=nz, key_bits=bits)
          ctx.check(tuple(ct.message.shape) == ((k + 1) * l, k + 1, n) and len(ct) == (k + 1) * l,
                    key, problem="shape", got=ct.message.shape)
          # every row: phase = m * (gadget entry) * (key polynomial or 1) + noise
          data = np.asarray(sk.key.data).astype(np.uint32)
          rows = np.asarray(ct.message)
          errs = []
          for blk, lev in itertools.product(range(k + 1), range(l)):
            ph = cggi.rlwe_phase(rows[blk * l + lev], data)
            g = (m << (32 - b * (lev + 1))) & M32
            if blk < k:
              want = (-(g * data[blk].astype(np.int64))).astype(np.int64)
            else:
              want = np.array([g] + [0] * (n - 1), dtype=np.int64)
            err = ((ph.astype(np.int64) - want + (1 << 31)) % (1 << 32)) - (1 << 31)
            errs += err.tolist()
          ctx.equal(key + ":rows", sorted(set(src.drawn["normal"])), sorted(set(errs)), m=m, noise=nz)
        ctx.cover(states=1, transitions=2, traces=(k + 1) * l)
    ctx.outcome((k, n, b, l))
    sk0 = rgsw.gen_key(prm, cggi.Script(sk=[0] * (k * n)))
    src = cggi.Script(uniform=cggi.words(11))
    ct = rgsw.encrypt(rgsw.RgswPlaintext(n, jnp.uint32(1)), sk0, dp, src)
    ctx.raises(f"rgsw:zero key:k{k}n{n}b{b}l{l}", ValueError, lambda: rgsw.decrypt(ct, dp, sk0))


SHARDS = {"lwe": lwe_all, "lwe_sums": lwe_sums, "rlwe": rlwe_all, "rgsw": rgsw_all}


def shards(tier):
  small = [(32, 1, 0), (32, 1, 1), (32, 3, 1), (32, 4, 2), (16, 2, 1), (8, 3, 0)]
  big = [(32, 6, 1), (26, 14, 2), (32, 31, 1), (32, 5, 0)]
  out = [(f"lwe@d{d}{n}", {"dims": [d], "encs": e})
         for d in (1, 2, 3) for n, e in (("a", small[:3]), ("b", small[3:]))]
  out += [("lwe@big", {"dims": [2, 16], "encs": big}), ("lwe@wide", {"dims": [8, 33], "encs": small[1:4]})]
  return out + [("lwe_sums", {})] + [(f"rlwe@{k}", {"ks": [k]}) for k in (1, 2, 3)] + [("rgsw", {})]
