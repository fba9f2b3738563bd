"""Key switching, conjugation and relinearisation keep the message."""
import itertools

PROPERTY = "C21"
RULE = (
    "switching keys: every (limbs of Q, limbs of P, partition count) x secret keys, every "
    "partition's b + a*s_dst compared over the integers with P*s_src on its own limbs plus one small "
    "noise polynomial; key switching, conjugation and relinearisation run on every such "
    "configuration, for every value modulo small Q in every coefficient and boundary values of "
    "large Q, compared with the phase computed over the integers")


def _setup(ctx):
  import numpy as np
  from jaxite.jaxite_ckks import ntt_cpu
  from mc import ckks as ck
  return np, ntt_cpu, ck


def secret(coeffs, mods):
  import numpy as np
  from jaxite.jaxite_ckks import ntt_cpu
  from jaxite.jaxite_ckks import types
  c = np.array([[int(x) % q for q in mods] for x in coeffs], dtype=np.uint64)
  return types.SecretKey(ntt_cpu.ntt_negacyclic_poly(c, list(mods)), np.array(mods, dtype=np.uint64))


def slots(coeffs, mods):
  """integer polynomial -> slot form (degree, limbs)."""
  import numpy as np
  from jaxite.jaxite_ckks import ntt_cpu
  c = np.array([[int(x) % q for q in mods] for x in coeffs], dtype=np.uint64)
  return np.asarray(ntt_cpu.ntt_negacyclic_poly(c, list(mods)))


def integers(slot_form, mods):
  """slot form -> integer polynomial modulo the product, centred."""
  import numpy as np
  from jaxite.jaxite_ckks import ntt_cpu
  from mc import ckks as ck
  co = ntt_cpu.intt_negacyclic_poly(np.asarray(slot_form).astype(np.uint64), list(mods))
  return ck.crt_centered(np.asarray(co), mods)


def phase(data, s, mods):
  """sum_i data_i s^i over the integers modulo the product, centred; s: integer coefficients."""
  import numpy as np
  sl = slots(s, mods).astype(object)
  q = np.array([int(m) for m in mods], dtype=object)
  acc, p = None, None
  for i in range(len(data)):
    x = np.asarray(data[i]).astype(object)
    if i == 0:
      acc = x
      p = sl
    else:
      acc = (acc + x * p) % q
      p = p * sl % q
  return integers((acc % q).astype(np.uint64), mods)


def partition(num_q, dnum):
  alpha = -(-num_q // dnum)
  return [list(range(i, min(i + alpha, num_q))) for i in range(0, num_q, alpha)]


def bc_pairs(num_q, num_p, dnum):
  allm = list(range(num_q + num_p))
  return [(p, [i for i in allm if i not in p]) for p in partition(num_q, dnum)]


def centred(x, q):
  x %= q
  return x - q if x > q // 2 else x


def chain(n, spec):
  """Distinct primes of the given sizes, = 1 mod 2n."""
  from mc import ckks as ck
  out = []
  for b in spec:
    k = 0
    while True:
      p = ck.primes(n, b, 1, skip=k)[0]
      if p not in out:
        out.append(p)
        break
      k += 1
  return out


def small_primes(n, count):
  from mc import ckks as ck
  out, x = [], 2 * n + 1
  while len(out) < count:
    if ck.is_prime(x):
      out.append(x)
    x += 2 * n
  return out


def keys(ctx, n, part, parts):
  """The generated keys themselves."""
  np, ntt_cpu, ck = _setup(ctx)
  import math
  from jaxite.jaxite_ckks import key_gen
  alls = list(itertools.product((-1, 0, 1), repeat=n)) if n <= 4 else [
      tuple([1] * n), tuple([-1] * n), tuple((-1) ** i for i in range(n)), (1,) + (0,) * (n - 1),
      (0,) * (n - 1) + (-1,), tuple(i % 3 - 1 for i in range(n))]
  work = [(nq, np_, d) for nq in range(1, 6) for np_ in (1, 2, 3) for d in range(1, 7)]
  for wi, (nq, num_p, dnum) in enumerate(work):
    if wi % parts != part:
      continue
    sizes = [28, 30, 31, 26, 29][:nq] + [31, 31, 30][:num_p]
    mods = chain(n, sizes)
    q, p = mods[:nq], mods[nq:]
    big = math.prod(mods)
    pv = math.prod(p)
    dnum_sorted = partition(nq, dnum)
    some = alls if (nq, num_p) == (2, 1) or ctx.thorough else alls[::max(1, len(alls) // 7)]
    for si, s in enumerate(some):
      t = alls[(si * 7 + 3) % len(alls)]
      kinds = ["switch", "evaluation", "conjugate"]
      for kind in kinds:
        key = f"keys:{kind}:n{n}:q{nq}:p{num_p}:dnum{dnum}"
        src = {"noise": [((i * 5) % 11) - 5 + (i // 7) for i in range(n * 8)]}
        rs = ck.Script(gauss=src["noise"], salt=si + 1)
        with ctx.impl(key, secret=s):
          if kind == "switch":
            k = key_gen.gen_key_switching_key(secret(s, q), secret(t, q), list(q), list(p), dnum, random_source=rs)
            source, dst = list(s), t
          elif kind == "evaluation":
            k = key_gen.gen_evaluation_key(secret(s, q), list(q), list(p), dnum, random_source=rs)
            source, dst = ck.negacyclic(s, s, big), s
          else:
            k = key_gen.gen_conjugate_key(secret(s, q), list(q), list(p), dnum, random_source=rs)
            source, dst = ck.automorphism(s, 2 * n - 1, big), s
          source = [centred(x, big) for x in source]
          a, b = np.asarray(k.a), np.asarray(k.b)
          ctx.check(a.shape[1:] == (n, len(mods)) and a.shape == b.shape and a.shape[0] >= len(dnum_sorted), key,
                    problem="shape", got=a.shape)
          ctx.check([int(m) for m in np.asarray(k.moduli)] == mods, key, problem="moduli")
          ctx.check((a < np.array(mods, dtype=np.uint64)).all() and (b < np.array(mods, dtype=np.uint64)).all(), key,
                    problem="unreduced")
          noises = []
          for i, limbs in enumerate(dnum_sorted):
            ph = phase([b[i], a[i]], dst, mods)
            # P * source on the limbs of this partition, 0 on the others
            e = math.prod(q[j] for j in limbs)
            rest = big // e
            ind = rest * pow(rest, -1, e)  # 1 on the partition's limbs, 0 elsewhere
            res = [centred(int(x) - pv * y * ind, big) for x, y in zip(ph, source)]
            ctx.check(max(abs(x) for x in res) <= 20, key, problem="not P * source key plus small noise", partition=i,
                      residue=str(res[:4]), secret=s)
            noises.append(tuple(res))
          ctx.check(all(tuple(x) in {tuple(g) for g in rs.drawn["gauss"]} for x in noises), key,
                    problem="noise is not the sampled one", noise=str(noises[:2]))
          ctx.check(len({a[i].tobytes() for i in range(len(dnum_sorted))}) == len(dnum_sorted), key,
                    problem="partitions share their mask")
          ctx.check(len(set(noises)) == len(noises), key, problem="partitions share their noise")
        ctx.cover(states=1, transitions=dnum, traces=len(dnum_sorted))
      ctx.outcome((nq, num_p, dnum))
    # extending a key keeps its coefficients
    for s in some:
      with ctx.impl(f"extend:n{n}"):
        e = key_gen.extend_secret_key(secret(s, q), list(mods))
        ctx.equal(f"extend:n{n}:q{nq}:p{num_p}", np.array(s, dtype=object), integers(e.data, mods), secret=s)
        ctx.check([int(m) for m in e.moduli] == mods, "extend", problem="moduli")
      ctx.cover(states=1, transitions=1, traces=1)
  with ctx.impl("extend:prefix"):
    mods = chain(n, [28, 30, 31])
    sk = secret([1] * n, mods[:2])
    ctx.raises("extend:order", ValueError, lambda: key_gen.extend_secret_key(sk, [mods[1], mods[0], mods[2]]))


def values(mods, n):
  """Boundary values modulo Q."""
  import math
  q = math.prod(mods)
  xs = {0, 1, q - 1, q // 2, q // 2 + 1, q // 3}
  for i in range(len(mods)):
    for w in range(i + 1, len(mods) + 1):
      part = math.prod(mods[i:w])
      rest = q // part
      for v in (1, part - 1, part // 2, part // 2 + 1):
        xs.add(v * rest * pow(rest, -1, part) % q if rest > 1 else v % q)
  return sorted(xs)


def poly_set(mods, n):
  import math
  q = math.prod(mods)
  xs = list(range(q)) if q <= 1400 else values(mods, n)
  while len(xs) % n:
    xs.append(xs[len(xs) // 2])
  return [xs[i:i + n] for i in range(0, len(xs), n)]


def pick(ps, k, j):
  """k of the polynomials, other ones for every j."""
  if len(ps) <= k:
    return ps
  step = len(ps) / k
  return [ps[int(i * step + j) % len(ps)] for i in range(k)]


KEYS8 = [(1, -1, 0, 1, 1, -1, -1, 1), (1,) * 8, (0,) * 7 + (-1,), (-1, 1) * 4, (0, 0, 1, 0, -1, 0, 0, 0)]


def configs(tier):
  """(q sizes, p sizes, dnum); size 0 = small primes."""
  out = []
  for nq in range(1, 5):
    for num_p in (1, 2, 3):
      for d in range(1, nq + 2):
        out.append(([28, 30, 31, 29][:nq], [31, 31, 30][:num_p], d))
  out += [([0] * k, [0] * m, d) for k in (1, 2) for m in (1, 2) for d in range(1, k + 1)]
  out += [([31, 20], [31], 2), ([20, 31, 28], [31, 31], 2), ([31] * 5, [31, 31], 3), ([31] * 6, [31, 31], 4),
          ([31] * 5, [31, 31, 31], 4)]
  if tier == "thorough":
    out += [(list(c), [31, 31], d) for c in itertools.product((20, 28, 31), repeat=3) for d in (1, 2, 3)]
    out += [([30] * 7, [31, 31], d) for d in range(1, 9)]
  return out


def _build(n, qs, ps):
  if qs[0] == 0:
    mods = small_primes(n, len(qs) + len(ps))
    return mods[:len(qs)], mods[len(qs):]
  mods = chain(n, qs + ps)
  return mods[:len(qs)], mods[len(qs):]


def switch(ctx, part, parts, n=8):
  np, ntt_cpu, ck = _setup(ctx)
  import math
  import jax.numpy as jnp
  from jaxite.jaxite_ckks import barrett
  from jaxite.jaxite_ckks import basis_conversion
  from jaxite.jaxite_ckks import conjugate
  from jaxite.jaxite_ckks import key_gen
  from jaxite.jaxite_ckks import key_switching
  from jaxite.jaxite_ckks import mul
  from jaxite.jaxite_ckks import rescale
  from jaxite.jaxite_ckks import types
  splits = [(2, 4), (4, 2), (1, 8), (8, 1)]
  work = configs(ctx.tier)
  reused = key_switching.KeySwitcher()  # one kernel set up again for every configuration
  for wi, (qs, ps, dnum) in enumerate(work):
    if wi % parts != part:
      continue
    q, p = _build(n, qs, ps)
    mods = q + p
    qv, pv, big = math.prod(q), math.prod(p), math.prod(mods)
    r, c = splits[wi % (2 if ctx.quick else 4)]
    polys = poly_set(q, n)
    key = f"switch:q{q}:p{p}:dnum{dnum}:{r}x{c}"
    groups = partition(len(q), dnum)
    for off in ((wi // 8) % 2,) if ctx.quick else (0, 1):
      with ctx.impl(key):
        bc = basis_conversion.BasisConversionBarrett()
        pairs = bc_pairs(len(q), len(p), dnum)
        head = [(list(range(len(q), len(mods))), list(range(len(q))))] if off else []
        bc.precompute_constants(mods, head + pairs)
        mk = mul.MulPlaintextCiphertextBarrett(barrett.precompute_barrett_constants(mods))
        ks = reused if off else key_switching.KeySwitcher()
        ks.precompute_constants(list(q), list(p), dnum, r, c)
        p_arr = jnp.array(p, dtype=jnp.uint32)
        pairs_of_keys = [(KEYS8[(wi + i) % 5], KEYS8[(wi + i + 2) % 5]) for i in range(2)]
        for ki, (s, t) in enumerate(pairs_of_keys):
          for noise in ((0,) if ki else (0, (3, -5, 4, 0, -1, 5, 2, -3))):
            rs = ck.Script(gauss=noise, salt=ki + 1)
            ksk = key_gen.gen_key_switching_key(secret(s, q), secret(t, q), list(q), list(p), dnum, random_source=rs)
            emax = 0 if noise == 0 else 5
            for j, x in enumerate(pick(polys, 8 if ctx.quick else 40, ki + off)):
              y = polys[(j * 5 + 2) % len(polys)]
              d0, d1 = slots(y, q), slots(x, q)
              before = np.stack([d0, d1]).astype(np.uint32)
              ct = types.Ciphertext(jnp.asarray(before), jnp.asarray(q, dtype=jnp.uint32))
              out = ks.key_switch(ct, ksk, p_arr, bc, mk, off)
              data = np.asarray(out.data)
              ok = ctx.check(data.shape == (2, n, len(mods)) and np.asarray(out.moduli).tolist() == mods, key, problem="shape",
                             got=data.shape)
              ctx.equal(key + ":operand", before, np.asarray(ct.data))
              if not ok:
                continue
              ctx.check((data < np.array(mods)).all(), key, problem="unreduced")
              got = phase(data, t, mods)
              want = phase(before, s, q)
              err = [centred(int(g) - pv * int(w), big) for g, w in zip(got, want)]
              bound = sum(n * emax * len(g) * math.prod(q[i] for i in g) for g in groups)
              ctx.check(max(abs(e) for e in err) <= bound, key, problem="phase changed", coefficients=[str(v) for v in x],
                        error=str(max(err, key=abs)), bound=str(bound), source=s, destination=t, noise=noise)
              ctx.cover(states=1, transitions=1, traces=1)
        # conjugation: the message polynomial m(X) becomes m(X^-1), error below (1+|s|)/2 + 1
        s = KEYS8[wi % 5]
        cj = conjugate.Conjugation()
        cj.precompute_constants(list(q), list(p), dnum, r, c)
        rk = rescale.Rescale()
        rk.precompute_constants(mods, len(p), r, c)
        for noise in (0, (2, -1, 0, 3)):
          emax = 0 if noise == 0 else 3
          ckey = key_gen.gen_conjugate_key(secret(s, q), list(q), list(p), dnum, random_source=ck.Script(gauss=noise, salt=9))
          for j, x in enumerate(pick(polys, 4 if ctx.quick else 20, off)):
            y = polys[(j * 3 + 1) % len(polys)]
            before = np.stack([slots(y, q), slots(x, q)]).astype(np.uint32)
            ct = types.Ciphertext(jnp.asarray(before), jnp.asarray(q, dtype=jnp.uint32))
            out = cj.conjugate(ct, ckey, p_arr, bc, mk, rk, off)
            data = np.asarray(out.data)
            ok = ctx.check(data.shape == (2, n, len(q)) and np.asarray(out.moduli).tolist() == q, key + ":conjugate",
                           problem="shape", got=data.shape)
            ctx.equal(key + ":conjugate:operand", before, np.asarray(ct.data))
            if not ok:
              continue
            want = ck.automorphism(phase(before, s, q), 2 * n - 1, qv)
            err = [centred(int(g) - int(w), qv) for g, w in zip(phase(data, s, q), want)]
            bound = (1 + sum(map(abs, s))) / 2 + 1 + sum(n * emax * len(g) * math.prod(q[i] for i in g) for g in groups) / pv
            ctx.check(max(abs(e) for e in err) <= bound, key + ":conjugate", problem="not the conjugate",
                      coefficients=[str(v) for v in x], error=str(max(err, key=abs)), bound=bound, secret=s)
            ctx.cover(states=1, transitions=1, traces=1)
      ctx.outcome((tuple(qs), tuple(ps), dnum, off))


def relin(ctx, part, parts, n=8):
  np, ntt_cpu, ck = _setup(ctx)
  import math
  import jax.numpy as jnp
  from jaxite.jaxite_ckks import key_gen
  from jaxite.jaxite_ckks import mul
  from jaxite.jaxite_ckks import types
  splits = [(2, 4), (4, 2), (1, 8), (8, 1)]
  again = mul.Mul()
  for wi, (qs, ps, dnum) in enumerate(configs(ctx.tier)):
    if wi % parts != part:
      continue
    q, p = _build(n, qs, ps)
    qv, pv = math.prod(q), math.prod(p)
    r, c = splits[wi % (2 if ctx.quick else 4)]
    polys = poly_set(q, n)
    groups = partition(len(q), dnum)
    key = f"mul:q{q}:p{p}:dnum{dnum}:{r}x{c}"
    extra = [x for x in chain(n, [31] * 12) if x not in q + p]
    for which in ((wi // 8) % 2,) if ctx.quick else (0, 1):
      with ctx.impl(key):
        m = again if which else mul.Mul()
        cd = 1 + which
        m.precompute_constants(list(q) + extra[:cd], list(p), dnum, r, c, composite_degree=cd)
        for ki in range(2):
          s = KEYS8[(wi + ki + which) % 5]
          for noise in ((0,) if ki else (0, (3, -5, 4, 0, -1, 5, 2, -3))):
            evk = key_gen.gen_evaluation_key(secret(s, q), list(q), list(p), dnum,
                                             random_source=ck.Script(gauss=noise, salt=ki + 1))
            emax = 0 if noise == 0 else 5
            bound = len(p) * (1 + sum(map(abs, s))) + sum(
                n * emax * len(g) * math.prod(q[i] for i in g) for g in groups) / pv
            data3 = []
            for j, x in enumerate(pick(polys, 6 if ctx.quick else 30, ki + which)):
              e = [slots(polys[(j * k + k) % len(polys)], q) for k in (3, 5, 7)]
              c1 = np.stack([slots(x, q), e[0]]).astype(np.uint32)
              c2 = np.stack([e[1], slots(x[::-1], q) if j % 2 else e[2]]).astype(np.uint32)
              if j == 1:
                c2 = c1
              ct1 = types.Ciphertext(jnp.asarray(c1), jnp.asarray(q, dtype=jnp.uint32))
              ct2 = ct1 if j == 1 else types.Ciphertext(jnp.asarray(c2), jnp.asarray(q, dtype=jnp.uint32))
              t3 = m.tensor_multiply(ct1, ct2)
              d3 = np.asarray(t3.data)
              if not ctx.check(d3.shape == (3, n, len(q)) and np.asarray(t3.moduli).tolist() == q, key, problem="shape",
                               got=d3.shape):
                continue
              ctx.check((d3 < np.array(q)).all(), key, problem="unreduced")
              want = ck.negacyclic(phase(c1, s, q), phase(c2, s, q), qv)
              got3 = [int(v) % qv for v in phase(d3, s, q)]
              ctx.check(got3 == want, key + ":tensor", problem="not the product", coefficients=[str(v) for v in x])
              out = m.relinearize(t3, evk)
              data = np.asarray(out.data)
              if not ctx.check(data.shape == (2, n, len(q)) and np.asarray(out.moduli).tolist() == q, key, problem="shape",
                               got=data.shape):
                continue
              ctx.check((data < np.array(q)).all(), key, problem="unreduced")
              err = [centred(int(g) - w, qv) for g, w in zip(phase(data, s, q), want)]
              ctx.check(max(abs(v) for v in err) <= bound, key + ":relinearize", problem="phase changed",
                        coefficients=[str(v) for v in x], error=str(max(err, key=abs)), bound=bound, secret=s, noise=noise)
              ctx.equal(key + ":operand", c1, np.asarray(ct1.data))
              ctx.equal(key + ":operand", c2, np.asarray(ct2.data))
              ctx.equal(key + ":operand", d3, np.asarray(t3.data))
              data3.append((d3, data))
              ctx.cover(states=1, transitions=2, traces=1)
            # leading batch dimensions
            if not ki and data3:
              for shape in ((2, len(data3) // 2),) if ctx.quick else ((len(data3),), (2, len(data3) // 2), (1,)):
                k = math.prod(shape)
                if not k:
                  continue
                bt = np.stack([d for d, _ in data3[:k]]).reshape(shape + data3[0][0].shape)
                bw = np.stack([d for _, d in data3[:k]]).reshape(shape + data3[0][1].shape)
                o = m.relinearize(types.Ciphertext(jnp.asarray(bt), jnp.asarray(q, dtype=jnp.uint32)), evk)
                ctx.equal(key + ":batch", bw, np.asarray(o.data), shape=shape)
                ctx.cover(states=k, transitions=1, traces=k)
      ctx.outcome((tuple(qs), tuple(ps), dnum, which))
  fresh = mul.Mul()
  ctx.raises("mul:uninitialised", ValueError, lambda: fresh.tensor_multiply(None, None))
  ctx.raises("mul:uninitialised", ValueError, lambda: fresh.relinearize(None, None))
  ctx.raises("mul:wide modulus", ValueError,
             lambda: mul.Mul().precompute_constants([(1 << 31) + 11, 17], [97], 1, 2, 4))


SHARDS = {"keys": keys, "switch": switch, "relin": relin}


def shards(tier):
  a = 8 if tier == "quick" else 16
  return ([(f"switch@{i}", {"part": i, "parts": a}) for i in range(a)]
          + [(f"relin@{i}", {"part": i, "parts": a}) for i in range(a)]
          + [(f"keys@{i}", {"n": n, "part": i, "parts": 2}) for n in (4,) for i in range(2)]
          + [(f"keys@8-{i}", {"n": 8, "part": i, "parts": 2}) for i in range(2)])
