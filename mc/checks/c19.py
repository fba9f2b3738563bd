"""CKKS encode/decode and encrypt/decrypt return the message up to the stated noise."""
import itertools

PROPERTY = "C19"
RULE = (
    "encoding: every unit coefficient and unit slot (a basis of the linear maps), all sign "
    "patterns, short and full slot lists, every scale/modulus chain in bounds, against direct "
    "evaluation at the powers zeta^(5^j); encryption: every binary and ternary secret key and "
    "every encryption mask of the smallest ring x extreme noises x messages up to +-Q/2, "
    "decryption compared exactly with m + e*v + e0 + e1*s over the integers")


def _roots(n):
  import numpy as np
  return np.array([np.exp(1j * np.pi * (pow(5, j, 2 * n)) / n) for j in range(n // 2)])


def embedding(ctx):
  import math
  import jax.numpy as jnp
  import numpy as np
  from mc import ckks as ck
  from jaxite.jaxite_ckks import encode
  from jaxite.jaxite_ckks import ntt_cpu
  from jaxite.jaxite_ckks import types
  for n in (2, 4, 8, 16, 32) + ((64,) if ctx.quick else (64, 128, 256)):
    rt = _roots(n)
    van = np.array([[r ** i for i in range(n)] for r in rt])  # slots x coefficients
    for nh in [n // 2]:
      for mk in range(3):
        # the transforms themselves
        for i in range(nh):
          for c in (1, 1j, -2 + 3j):
            v = np.zeros(nh, dtype=complex)
            v[i] = c
            with ctx.impl(f"fft:n{n}"):
              a = v.copy()
              encode.fft_special(a, 2 * n)
              want = van[:, i] * c
              ctx.close(f"fft:n{n}", want, a, 1e-9, i=i)
              encode.fft_special_inv(a, 2 * n)
              ctx.close(f"fft:n{n}:inverse", v, a, 1e-9, i=i)
            ctx.cover(states=1, transitions=2, traces=1)
        break
    chains = [ck.primes(n, 28, 1), ck.primes(n, 28, 2), ck.primes(n, 31, 3), ck.primes(n, 30, 1) + ck.primes(n, 20, 2), ck.primes(n, 31, 4)]
    for mods in chains:
      q = math.prod(mods)
      for scale in (1.0, 2.0 ** 10, 2.0 ** 20, 2.0 ** 30, 2.0 ** 45, 1000.5, 2.0 ** 62, 2.0 ** 80, 2.0 ** 100):
        if scale * 8 * n > q / 2:
          continue
        key = f"encode:n{n}:{len(mods)}limbs:scale{scale}"
        vecs = []
        for i in range(n // 2):
          for c in (1, -1, 1j, -1j, 0.5 - 2.25j):
            v = [0j] * (n // 2)
            v[i] = c
            vecs.append(v)
        vecs += [[1 + 0j] * (n // 2), [(-1) ** i * (1.5 - 0.25j * i) for i in range(n // 2)],
                 [complex(i % 5 - 2, (3 * i) % 4 - 1.5) for i in range(n // 2)], [0j] * (n // 2)]
        vecs += [[2 - 1j] * k for k in range(1, n // 2 + 1)]  # short lists are zero padded
        if ctx.quick and n >= 32:
          vecs = vecs[::5]
        with ctx.impl(key):
          enc = encode.Encode(n, mods, scale)
          for v in vecs:
            pt = enc.encode(v)
            ctx.check(tuple(pt.data.shape) == (n, len(mods)) and np.asarray(pt.moduli).tolist() == mods, key, problem="shape")
            co = ck.crt_centered(ntt_cpu.intt_negacyclic_poly(np.asarray(pt.data).astype(np.uint64), mods), mods)
            full = np.array(list(v) + [0] * (n // 2 - len(v)))
            # exact inverse embedding: coefficient_k = 2/n * Re(sum z_j * conj(root_j)^k)
            ideal = 2.0 / n * np.real((full[:, None] * np.conj(van)).sum(0)) * scale
            err = np.abs(co.astype(float) - ideal)
            ctx.check((err <= 0.5 + 1e-6 + scale * 1e-13 * n).all(), key, slots=v, worst=float(err.max()))
            # decoding, from either form, any number of slots
            tol = (0.5 * n + 1e-3) / scale + 1e-9
            for ns in {1, n // 2, max(1, n // 4)}:
              got = encode.Decode(scale, ns).decode(pt, is_slot_form=True)
              ctx.check(len(got) == ns, key, problem="number of slots", got=len(got))
              ctx.close(key + ":decode", full[:ns], np.array(got), tol, slots=v)
            cf = types.Plaintext(jnp.asarray(ntt_cpu.intt_negacyclic_poly(np.asarray(pt.data).astype(np.uint64), mods), dtype=jnp.uint32), pt.moduli)
            ctx.close(key + ":decode coefficients", full, np.array(encode.Decode(scale, n // 2).decode(cf)), tol, slots=v)
            ctx.cover(states=1, transitions=4, traces=1)
          # decoding every unit coefficient at both extremes of the centred range
          for i in range(n):
            for c in (1, -1, q // 2, -(q // 2), 12345 % (q // 2)):
              coef = [0] * n
              coef[i] = c
              arr = np.array([[x % m for m in mods] for x in coef], dtype=np.uint32)
              got = np.array(encode.Decode(scale, n // 2).decode(types.Plaintext(jnp.asarray(arr), jnp.asarray(mods, dtype=jnp.uint32))))
              want = van[:, i] * (c / scale)
              ctx.close(key + ":decode unit", want, got, 1e-9 * (1 + abs(c) / scale), i=i, c=str(c))
              ctx.cover(states=1, transitions=1, traces=1)
        ctx.outcome((n, len(mods), scale))


def encryption(ctx, n, part, parts):
  import math
  import jax.numpy as jnp
  import numpy as np
  from mc import ckks as ck
  from jaxite.jaxite_ckks import encrypt
  from jaxite.jaxite_ckks import key_gen
  from jaxite.jaxite_ckks import ntt_cpu
  from jaxite.jaxite_ckks import types
  if n <= 4:
    keys = list(itertools.product((-1, 0, 1), repeat=n))
    masks = list(itertools.product((-1, 0, 1), repeat=n))
  else:
    keys = [[1] * n, [0] * n, [i % 2 for i in range(n)], [(i % 3) - 1 for i in range(n)], [-1] * n, [1] + [0] * (n - 1), [0] * (n - 1) + [1]]
    masks = keys
  noises = [[0], [3, -3, 7, -1, 0, 2, -20], [19, -19]]
  for mods in ([ck.primes(n, 28, 1)[0]], ck.primes(n, 28, 2), ck.primes(n, 31, 1) + ck.primes(n, 20, 1) + ck.primes(n, 30, 1)):
    q = math.prod(mods)
    msgs = [[0] * n, [(i * 12345 - 40000) for i in range(n)], [q // 2 - 4000] + [-(q // 2) + 4000] * (n - 1)]
    for ki, kb in list(enumerate(keys))[part::parts]:
      vs = masks if n == 2 else masks[ki % 3:: max(1, len(masks) // 9)] + [masks[-1]]
      for v, nz, (mi, m) in itertools.product(vs, noises, enumerate(msgs)):
        if n > 2 and (mi + len(nz)) % 2 and nz != [0]:
          continue
        key = f"encrypt:n{n}:{len(mods)}limbs"
        with ctx.impl(key, key_bits=kb, mask=v):
          src = ck.Script(gauss=nz, ternary=list(kb) + list(v))
          pk, sk = key_gen.keygen(n, mods, src)
          ctx.check(np.asarray(pk.moduli).tolist() == mods and np.asarray(sk.moduli).tolist() == mods, key, problem="moduli")
          for lv in range(len(mods), 0, -1):
            sub = mods[:lv]
            qs = math.prod(sub)
            if lv < len(mods) and mi == 2:
              continue
            src.t = itertools.cycle(v)
            g0 = len(src.drawn["gauss"])
            co = np.array([[x % p for p in sub] for x in m], dtype=np.uint64)
            pt = types.Plaintext(jnp.asarray(ntt_cpu.ntt_negacyclic_poly(co, sub), dtype=jnp.uint32), jnp.asarray(sub, dtype=jnp.uint32))
            ct = encrypt.Encrypt(pk).encrypt(pt, src)
            ctx.check(tuple(ct.data.shape) == (2, n, lv) and np.asarray(ct.moduli).tolist() == sub, key, problem="shape")
            out = encrypt.Decrypt(sk).decrypt(ct)
            got = [int(x) for x in ck.crt(np.asarray(out.data), sub)]
            e = src.drawn["gauss"][0]
            es = src.drawn["gauss"][g0:]
            if not ctx.check(len(es) == 2, key, problem="two noises expected", got=len(es)):
              continue
            ok = False
            for e0, e1 in (es, es[::-1]):
              ev, e1s = ck.negacyclic(e, v, qs), ck.negacyclic(e1, kb, qs)
              want = [(a + b + c + d) % qs for a, b, c, d in zip(m, ev, e0, e1s)]
              ok = ok or got == want
            ctx.check(ok, key, key_bits=kb, mask=v, noise=nz, m=m, got=[str(x) for x in got], want=[str(x) for x in want])
            ctx.cover(states=1, transitions=3, traces=1)
    ctx.outcome((n, len(mods)))
    # foreign moduli are refused
    pk, sk = key_gen.keygen(n, mods, ck.Script(ternary=[1, 0]))
    other = ck.primes(n, 26, 3)
    for bad in ([other[0]], mods[::-1] if len(mods) > 1 else [other[1]], mods + [other[2]]):
      pt = types.Plaintext(jnp.zeros((n, len(bad)), dtype=jnp.uint32), jnp.asarray(bad, dtype=jnp.uint32))
      ctx.raises("encrypt:moduli", ValueError, lambda: encrypt.Encrypt(pk).encrypt(pt))
      ct = types.Ciphertext(jnp.zeros((2, n, len(bad)), dtype=jnp.uint32), jnp.asarray(bad, dtype=jnp.uint32))
      ctx.raises("decrypt:moduli", ValueError, lambda: encrypt.Decrypt(sk).decrypt(ct))
      ctx.cover(states=1, transitions=2)
  # sparse keys have exactly the requested weight
  for w in range(n + 1):
    with ctx.impl("encrypt:sparse"):
      pk, sk = key_gen.keygen(n, mods, hamming_weight=w)
      co = np.asarray(ntt_cpu.intt_negacyclic_poly(sk.data, mods))
      ctx.check(((co == 0) | (co == 1)).all() and (co.sum(0) == w).all(), "encrypt:sparse", weight=w)
    ctx.cover(states=1, transitions=1)


def end_to_end(ctx):
  """Real randomness: slots in, slots out, over the public interface."""
  import numpy as np
  from mc import ckks as ck
  from jaxite.jaxite_ckks import encode
  from jaxite.jaxite_ckks import encrypt
  from jaxite.jaxite_ckks import key_gen
  from jaxite.jaxite_ckks import random as cr
  for n, limbs in itertools.product((4, 8, 16, 64), (1, 2, 4)):
    mods = ck.primes(n, 30, limbs)
    scale = 2.0 ** 20
    for mk in (cr.SecureRandomSource, cr.ZeroNoiseRandomSource, lambda: cr.TestRandomSource(5), lambda: None):
      with ctx.impl("end_to_end"):
        rs = mk()
        pk, sk = key_gen.keygen(n, mods, rs)
        for v in ([complex(i % 3 - 1, 0.5 * (i % 5)) for i in range(n // 2)], [4 - 4j] * (n // 2), [0.001j]):
          ct = encrypt.Encrypt(pk).encrypt(encode.Encode(n, mods, scale).encode(v), rs)
          got = np.array(encode.Decode(scale, n // 2).decode(encrypt.Decrypt(sk).decrypt(ct)))
          full = np.array(list(v) + [0] * (n // 2 - len(v)))
          # |noise coefficient| <= 40 * (2n + 1) beyond any doubt
          tol = (n * (40 * (2 * n + 1) + 1)) / scale if not isinstance(rs, cr.ZeroNoiseRandomSource) else n / scale
          ctx.close("end_to_end", full, got, tol, n=n, limbs=limbs)
          ctx.cover(states=1, transitions=4, traces=1)
    ctx.outcome((n, limbs))


SHARDS = {"embedding": embedding, "encryption": encryption, "end_to_end": end_to_end}


def shards(tier):
  return ([("embedding", {}), ("end_to_end", {})] + [("encryption@2", {"n": 2, "part": 0, "parts": 1})]
          + [(f"encryption@4.{i}", {"n": 4, "part": i, "parts": 3}) for i in range(3)]
          + [(f"encryption@{n}", {"n": n, "part": 0, "parts": 1}) for n in (8, 16)])
