"""Randomness: the sources honour their contract, and nothing secret-hiding is drawn twice."""
import itertools

PROPERTY = "C12"
RULE = (
    "every random source class x every shape in bounds x every operation sequence up to "
    "length 3 against the contract (shape, type, range, both bit values, replay from the "
    "seed); and, with a source whose every draw is distinct, every mask word and noise "
    "coefficient of every kind of ciphertext and public key is a distinct draw")
ASSUMPTIONS = ["the operating system's entropy source is not examined, only how draws are used"]
M32 = (1 << 32) - 1


def contract(ctx):
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_cggi import random_source as rs
  shapes = [(1,), (3,), (2, 3), (2, 1, 4), (1, 1), (0,), (2, 0), ()]
  for cls, shape in itertools.product(rs.ALL_RNGS, shapes):
    for op, dt in itertools.product(("uniform", "rounded_normal", "sk_uniform"), (jnp.uint32, jnp.int32)):
      if op == "uniform" and dt == jnp.int32:
        continue  # 32-bit words do not fit
      key = f"contract:{cls.__name__}:{op}"
      with ctx.impl(key, shape=shape):
        x = getattr(cls(), op)(shape=shape, dtype=dt)
        ctx.check(tuple(x.shape) == shape and x.dtype == dt, key, shape=shape, got=x.shape, dtype=str(x.dtype))
        v = np.asarray(x).astype(np.int64).reshape(-1)
        if op == "sk_uniform":
          ctx.check(((v == 0) | (v == 1)).all(), key, problem="not a bit", got=v)
        if op == "rounded_normal":
          s = np.where(v >= 1 << 31, v - (1 << 32), v)
          ctx.check((abs(s) <= 12).all(), key, problem="noise of a unit deviation out of range", got=s)
      ctx.cover(states=1, transitions=1, traces=1)
  for cls in (rs.PseudorandomSource, rs.SystemRandomSource):
    for lo, hi in ((0, M32), (0, 1), (5, 5), (0, 31), (1 << 31, M32), (3, 10)):
      key = f"contract:{cls.__name__}:bounds"
      with ctx.impl(key):
        v = np.asarray(cls(uniform_bounds=(lo, hi)).uniform(shape=(800,))).astype(np.int64)
        ctx.check(v.min() >= lo and v.max() <= hi, key, bounds=(lo, hi), got=(v.min(), v.max()))
        if hi - lo <= 31:
          ctx.equal(key, list(range(lo, hi + 1)), sorted(set(v.tolist())))
        elif (lo, hi) == (0, M32):
          for b in range(32):
            ctx.check(len(set(((v >> b) & 1).tolist())) == 2, key, problem="constant bit", bit=b)
      ctx.cover(states=1, transitions=1, traces=800)
    for std in (0, 1, 7, 1 << 10, 1 << 20):
      key = f"contract:{cls.__name__}:normal"
      with ctx.impl(key):
        for dt in (jnp.uint32, jnp.int32):
          v = np.asarray(cls(normal_std=std).rounded_normal(shape=(800,), dtype=dt)).astype(np.int64)
          v = np.where(v >= 1 << 31, v - (1 << 32), v)
          ctx.check((abs(v) <= 12 * std).all(), key, std=std, worst=abs(v).max())
          if std:
            ctx.check((v > 0).any() and (v < 0).any(), key, problem="one-sided", std=std)
            ctx.check(0.5 * std < np.sqrt((v * 1.0 * v).mean()) < 2 * std + 1, key, problem="deviation", std=std)
      ctx.cover(states=1, transitions=2, traces=1600)
    with ctx.impl(f"contract:{cls.__name__}:sk"):
      v = np.asarray(cls().sk_uniform(shape=(800,)))
      ctx.check(set(v.tolist()) == {0, 1}, f"contract:{cls.__name__}:sk", got=sorted(set(v.tolist()))[:5])
  for cls in (rs.PseudorandomSource, rs.SystemRandomSource, rs.CycleRng):
    for shape in ((-1,), (2, -3), (-1, -1)):
      ctx.raises(f"contract:{cls.__name__}:negative", ValueError, lambda: cls().uniform(shape=shape))
  ctx.outcome("contract")


def replay(ctx):
  """Seeded sources: same seed, same sequence of calls -> same values; one stream."""
  import numpy as np
  from jaxite.jaxite_cggi import random_source as rs
  ops = [("uniform", (2,)), ("uniform", (1, 3)), ("rounded_normal", (2,)), ("sk_uniform", (3,))]
  seeded = [rs.PseudorandomSource, rs.NormalOnlyRng, rs.ConstantUniformRng]
  for cls, n in itertools.product(seeded, (1, 2, 3)):
    for seq in itertools.product(ops, repeat=n):
      with ctx.impl(f"replay:{cls.__name__}"):
        run = lambda s: [np.asarray(getattr(s, o)(shape=sh)).tolist() for o, sh in seq]
        a = run(cls(seed=7))
        ctx.check(a == run(cls(seed=7)), f"replay:{cls.__name__}", sequence=[o for o, _ in seq])
        if cls is rs.PseudorandomSource and any(o == "uniform" for o, _ in seq):
          ctx.check(a != run(cls(seed=8)), f"replay:{cls.__name__}", problem="seed ignored")
          one = [v for r, (o, _) in zip(a, seq) if o == "uniform" for v in np.ravel(r)]
          ctx.check(len(set(one)) == len(one), f"replay:{cls.__name__}", problem="repeated words", got=one)
      ctx.cover(states=1, transitions=2 * n, traces=1)
  with ctx.impl("replay:system"):
    v = np.concatenate([np.asarray(rs.SystemRandomSource().uniform(shape=(4,))) for _ in range(4)])
    ctx.check(len(set(v.tolist())) >= 15, "replay:system", problem="instances repeat", got=v)
  from jaxite.jaxite_bool import bool_params
  for f, want in ((bool_params.get_lwe_rng_for_128_bit_security, None), (bool_params.get_rlwe_rng_for_128_bit_security, None)):
    with ctx.impl("replay:security"):
      a, b = f(seed=1), f(seed=1)
      x, y = np.asarray(a.uniform(shape=(6,))).tolist(), np.asarray(b.uniform(shape=(6,))).tolist()
      ctx.check(x == y, f"replay:{f.__name__}", problem="seed not honoured")
      ctx.check(max(np.asarray(a.uniform(shape=(64,)))) > 1 << 31, f"replay:{f.__name__}", problem="top bit never set")
      v = np.asarray(a.rounded_normal(shape=(400,))).astype(np.int64)
      v = np.where(v >= 1 << 31, v - (1 << 32), v)
      ctx.check(len(set(v.tolist())) > 50 and (v > 0).any() and (v < 0).any(), f"replay:{f.__name__}",
                problem="noise is not spread")
    ctx.cover(states=1, transitions=4, traces=1)
  ctx.outcome("replay")


def _distinct(ctx, key, what, values, **d):
  import collections
  vals = [int(v) for v in values]
  if len(set(vals)) != len(vals):
    rep = [v for v, c in collections.Counter(vals).most_common(3) if c > 1]
    ctx.fail(key, problem=f"{what} drawn more than once", repeated=rep,
             positions=[[i for i, v in enumerate(vals) if v == r][:6] for r in rep], of=len(vals), **d)
    return False
  return True


def fresh(ctx):
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_bool import bool_params
  from jaxite.jaxite_bool import jaxite_bool
  from jaxite.jaxite_cggi import bootstrap as bs
  from jaxite.jaxite_cggi import decomposition
  from jaxite.jaxite_cggi import encoding
  from jaxite.jaxite_cggi import key_switch
  from jaxite.jaxite_cggi import lwe
  from jaxite.jaxite_cggi import parameters
  from jaxite.jaxite_cggi import rgsw
  from jaxite.jaxite_cggi import rlwe
  from mc import cggi
  ep = encoding.EncodingParameters(32, 3, 1)
  sgn = lambda x: cggi.signed(np.asarray(x))

  def source(salt):
    # masks: distinct even words spread over the ring; noises: distinct, never zero
    return cggi.Script(uniform=cggi.words(200000, salt), normal=[(-1) ** i * (i + 1) for i in range(100000)],
                       sk=[1, 0, 1, 1, 0, 0, 1, 0, 1, 1, 1, 0, 0])

  # LWE: every sequence of messages of length 3 through one source
  for dim in (1, 2, 5):
    prm = parameters.SchemeParameters(dim, 2 ** 32, 1, 4)
    for seq in itertools.product((0, 1, 6), repeat=3):
      key = f"fresh:lwe:d{dim}"
      with ctx.impl(key):
        src = source(dim)
        sk = lwe.gen_key(prm, src)
        masks, noise = [], []
        for m in seq:
          ct = np.asarray(lwe.encrypt(encoding.encode(jnp.uint32(m), ep), sk, src))
          masks += ct[:-1].tolist()
          noise.append(sgn((cggi.lwe_phase(ct, sk.key_data) - np.uint32(m << 28)).astype(np.uint32)))
        _distinct(ctx, key, "mask word", masks, messages=seq)
        _distinct(ctx, key, "noise", noise, messages=seq)
        ctx.check(all(noise), key, problem="no noise", got=noise)
      ctx.cover(states=1, transitions=3, traces=1)
  # RLWE
  for k, n in itertools.product((1, 2, 3), (1, 2, 8)):
    prm = parameters.SchemeParameters(3, 2 ** 32, k, n)
    for seq in itertools.product((0, 5), repeat=2):
      key = f"fresh:rlwe:k{k}n{n}"
      with ctx.impl(key):
        src = source(k)
        sk = rlwe.gen_key(prm, src)
        data = np.asarray(sk.data)
        ctx.check(data.size == k * n == len(src.drawn["sk"]), key, problem="key bits shared", drawn=len(src.drawn["sk"]))
        masks, noise = [], []
        for m in seq:
          pt = rlwe.RlwePlaintext(32, n, encoding.encode(jnp.full((n,), m, dtype=jnp.uint32), ep))
          ct = rlwe.encrypt(pt, sk, src)
          msg = np.asarray(ct.message)
          masks += msg[:-1].reshape(-1).tolist()
          noise += sgn(cggi.rlwe_phase(msg, data) - np.uint32(m << 28)).tolist()
        _distinct(ctx, key, "mask word", masks)
        _distinct(ctx, key, "noise", noise)
        ctx.check(all(noise), key, problem="no noise", got=noise)
      ctx.cover(states=1, transitions=2, traces=1)

  def rgsw_rows(rows, m, b, l, data):
    """noise of every row; rows ((k+1) l, k+1, n)."""
    k, n = data.shape
    out = []
    for blk, lev in itertools.product(range(k + 1), range(l)):
      ph = cggi.rlwe_phase(rows[blk * l + lev], data).astype(np.int64)
      g = (m << (32 - b * (lev + 1))) & M32
      want = -(g * data[blk].astype(np.int64)) if blk < k else np.array([g] + [0] * (n - 1), dtype=np.int64)
      out += (((ph - want + (1 << 31)) % (1 << 32)) - (1 << 31)).tolist()
    return out

  for k, n, (b, l) in itertools.product((1, 2), (2, 4), ((8, 3), (4, 2))):
    prm = parameters.SchemeParameters(3, 2 ** 32, k, n)
    dp = decomposition.DecompositionParameters(b, l)
    for m in (0, 1, 3):
      key = f"fresh:rgsw:k{k}n{n}b{b}l{l}"
      with ctx.impl(key):
        src = source(m)
        sk = rgsw.gen_key(prm, src)
        ct = rgsw.encrypt(rgsw.RgswPlaintext(n, jnp.uint32(m)), sk, dp, src)
        rows = np.asarray(ct.message).astype(np.uint32)
        data = np.asarray(sk.key.data).astype(np.uint32)
        noise = rgsw_rows(rows, m, b, l, data)
        _distinct(ctx, key, "noise", noise, m=m)
        ctx.check(all(noise), key, problem="no noise")
        _distinct(ctx, key, "mask word", rows[:, :-1].reshape(-1), m=m)
      ctx.cover(states=1, transitions=1, traces=1)
  # bootstrapping key
  for dim, bm in itertools.product((2, 4, 14, 42), (True, False)):
    k, n, b, l = 1, 4, 8, 2
    prm = parameters.SchemeParameters(dim, 2 ** 32, k, n)
    dp = decomposition.DecompositionParameters(b, l)
    key = f"fresh:bsk:d{dim}:{'bmmp' if bm else 'plain'}"
    with ctx.impl(key):
      src = source(dim)
      kb = [(i * i + i // 3) % 2 for i in range(dim)]
      lsk = lwe.gen_key(prm, cggi.Script(sk=kb))
      rsk = rgsw.gen_key(prm, cggi.Script(sk=[1, 0, 1, 1]))
      bsk = bs.gen_bootstrapping_key(lsk, rsk, dp, src, use_bmmp=bm)
      bits = kb if not bm else sum(([s * t, s * (1 - t), (1 - s) * t] for s, t in zip(kb[::2], kb[1::2])), [])
      arr = np.asarray(bsk.encrypted_lwe_sk_bits).astype(np.uint32)
      data = np.asarray(rsk.key.data).astype(np.uint32)
      noise = sum((rgsw_rows(arr[i], m, b, l, data) for i, m in enumerate(bits)), [])
      _distinct(ctx, key, "noise", noise)
      ctx.check(all(noise), key, problem="no noise")
      _distinct(ctx, key, "mask word", arr[:, :, :-1].reshape(-1))
    ctx.cover(states=1, transitions=len(bits), traces=1)
    ctx.outcome((dim, bm))
  # key switching key
  for din, dout, (b, l) in itertools.product((1, 3, 8), (1, 4), ((4, 3), (8, 2), (2, 5))):
    key = f"fresh:ksk:{din}->{dout}b{b}l{l}"
    with ctx.impl(key):
      src = source(din)
      ki = [(i + 1) % 2 for i in range(din)]
      ko = [i % 2 for i in range(dout)]
      ski = lwe.gen_key(parameters.SchemeParameters(din, 2 ** 32, 1, 4), cggi.Script(sk=ki))
      sko = lwe.gen_key(parameters.SchemeParameters(dout, 2 ** 32, 1, 4), cggi.Script(sk=ko))
      ksk = key_switch.gen_key(decomposition.DecompositionParameters(b, l), src, ski, sko)
      arr = np.asarray(ksk.key_data).astype(np.uint32)
      noise = []
      for i, lev in itertools.product(range(din), range(l)):
        want = (ki[i] << (32 - b * (lev + 1))) & M32
        noise.append(int(sgn(np.uint32((int(cggi.lwe_phase(arr[i, lev], ko)) - want) & M32))))
      _distinct(ctx, key, "noise", noise)
      ctx.check(all(noise) and max(map(abs, noise)) <= din * l, key, problem="noise", got=noise)
      _distinct(ctx, key, "mask word", arr[:, :, :-1].reshape(-1))
    ctx.cover(states=1, transitions=1, traces=1)
  # the client's two keys are separate draws, also from one source; Boolean encryption
  for lwe_dim, k, n in ((4, 1, 8), (6, 2, 4), (2, 3, 2)):
    key = f"fresh:client:{lwe_dim},{k},{n}"
    with ctx.impl(key):
      prm = bool_params.Parameters(parameters.SchemeParameters(lwe_dim, 2 ** 32, k, n),
                                   decomposition.DecompositionParameters(4, 3), decomposition.DecompositionParameters(8, 2))
      src = source(1)
      cks = jaxite_bool.ClientKeySet(prm, src, src)
      ctx.check(len(src.drawn["sk"]) == lwe_dim + k * n, key, problem="key bits shared", drawn=len(src.drawn["sk"]))
      src2 = source(2)
      masks, noise = [], []
      for v in (True, False, True, True, False):
        ct = np.asarray(jaxite_bool.encrypt(v, cks, src2))
        ctx.check(jaxite_bool.decrypt(jnp.asarray(ct), cks) == v, key)
        masks += ct[:-1].tolist()
        ph = int(cggi.lwe_phase(ct, cks.lwe_sk.key_data))
        noise.append(((ph + (1 << 27)) % (1 << 28)) - (1 << 27))
      _distinct(ctx, key, "mask word", masks)
      _distinct(ctx, key, "noise", noise)
    ctx.cover(states=5, transitions=5, traces=1)


def ckks(ctx):
  import numpy as np
  from mc import ckks as ck
  from jaxite.jaxite_ckks import encode
  from jaxite.jaxite_ckks import encrypt
  from jaxite.jaxite_ckks import key_gen
  from jaxite.jaxite_ckks import ntt_cpu
  from jaxite.jaxite_ckks import random as cr
  # contract
  for deg, mods in itertools.product((2, 4, 16), ([17], [97, 193], [2147483489, 17, 65537])):
    for mk in (cr.SecureRandomSource, cr.ZeroNoiseRandomSource, lambda: cr.TestRandomSource(3)):
      s = mk()
      key = f"ckks:contract:{type(s).__name__}"
      with ctx.impl(key):
        for name, x in (("gauss", s.gen_gaussian_poly(deg, mods)), ("ternary", s.gen_ternary_poly(deg, mods)),
                        ("uniform", s.gen_uniform_poly(deg, mods))):
          x = np.asarray(x)
          ctx.check(x.shape == (deg, len(mods)), key, what=name, got=x.shape)
          ctx.check((x < np.array(mods, dtype=np.uint64)).all(), key, what=name, problem="not reduced")
          if name != "uniform":
            c = np.where(x.astype(np.int64) > np.array(mods) // 2, x.astype(np.int64) - np.array(mods), x.astype(np.int64))
            if mods != [17] and 17 not in mods:
              ctx.check((c == c[:, :1]).all(), key, what=name, problem="residues disagree", got=c)
            ctx.check((abs(c) <= (40 if name == "gauss" else 1)).all(), key, what=name, got=c)
        for w in range(deg + 1):
          x = np.asarray(s.gen_sparse_binary(deg, w, mods))
          ctx.check(x.shape == (deg, len(mods)) and ((x == 0) | (x == 1)).all() and (x.sum(0) == w).all()
                    and (x == x[:, :1]).all(), key, what="sparse", weight=w, got=x)
        u = np.asarray(s.gen_uniform_poly(2048, [17, 65537]))
        ctx.check(set(u[:, 0].tolist()) == set(range(17)), key, what="uniform", problem="values missing")
        ctx.check(u[:, 1].max() > 60000 and len(set(u[:, 1].tolist())) > 1500, key, what="uniform", problem="range")
        g = np.asarray(s.gen_gaussian_poly(2048, [65537])).astype(np.int64)[:, 0]
        g = np.where(g > 30000, g - 65537, g)
        if "Zero" not in type(s).__name__:
          ctx.check(2.5 < g.std() < 4 and abs(g.mean()) < 1, key, what="gauss", std=g.std(), mean=g.mean())
        else:
          ctx.check(not g.any(), key, what="gauss", problem="noise")
      ctx.cover(states=1, transitions=8, traces=1)
  for a, b in ((1, 1), (1, 2)):
    x = [np.asarray(cr.TestRandomSource(s).gen_uniform_poly(8, [65537])).tolist() for s in (a, b)]
    ctx.check((x[0] == x[1]) == (a == b), "ckks:seed")
  # freshness
  inv = lambda x, m: np.asarray(ntt_cpu.intt_negacyclic_poly(np.asarray(x).astype(np.uint64), m)).astype(np.int64)
  for deg, nq in itertools.product((4, 16), (1, 2, 3)):
    mods = ck.primes(deg, 28, nq)
    aux = ck.primes(deg, 30, 2)
    cen = lambda x, m: np.where(x > np.array(m) // 2, x - np.array(m), x)
    noise_seq = [(-1) ** i * (i + 1) for i in range(20000)]
    tern = [1, 0, 0, 1, 1, 0, 1, 0, 1, 1, 1, 0, 0]
    key = f"ckks:fresh:n{deg}q{nq}"
    with ctx.impl(key):
      src = ck.Script(gauss=noise_seq, ternary=tern)
      pk, sk = key_gen.keygen(deg, mods, src)
      q = np.array(mods, dtype=object)
      sd = np.asarray(sk.data).astype(object)
      e = cen(inv((np.asarray(pk.data[0]).astype(object) + np.asarray(pk.data[1]).astype(object) * sd) % q, mods), mods)
      ctx.check((e == e[:, :1]).all(), key, what="public key noise", problem="residues disagree")
      _distinct(ctx, key, "public key noise", e[:, 0])
      ctx.check(e.all() and abs(e).max() <= deg, key, what="public key noise", got=e[:, 0])
      _distinct(ctx, key, "public key mask", inv(pk.data[1], mods).reshape(-1))
      # encryptions of the same message
      m = encode.Encode(deg, mods, 2.0 ** 10).encode([0.5 + 0.25j] * (deg // 2))
      enc = encrypt.Encrypt(pk)
      allnoise, vs = [], []
      for rep in range(3):
        g0, t0 = len(src.drawn["gauss"]), len(src.drawn["ternary"])
        ct = enc.encrypt(m, src)
        gs, ts = src.drawn["gauss"][g0:], src.drawn["ternary"][t0:]
        ctx.check(len(gs) == 2 and len(ts) == 1, key, what="encryption draws", gauss=len(gs), ternary=len(ts))
        v = np.asarray(ntt_cpu.ntt_negacyclic_poly(np.array([[c % mm for mm in mods] for c in ts[0]], dtype=np.uint64), mods)).astype(object)
        e0 = cen(inv((np.asarray(ct.data[0]).astype(object) - np.asarray(m.data).astype(object) - v * np.asarray(pk.data[0]).astype(object)) % q, mods), mods)
        e1 = cen(inv((np.asarray(ct.data[1]).astype(object) - v * np.asarray(pk.data[1]).astype(object)) % q, mods), mods)
        allnoise += e0[:, 0].tolist() + e1[:, 0].tolist()
        ctx.check(e0.all() and e1.all() and abs(e0).max() < 4000 and abs(e1).max() < 4000, key, what="encryption noise")
      _distinct(ctx, key, "encryption noise", allnoise)
      # switching keys
      allm = mods + aux
      qa = np.array(allm, dtype=object)
      sx = np.asarray(key_gen.extend_secret_key(sk, allm).data).astype(object)
      noise, masks = [], []
      for dnum in range(1, nq + 1):
        for gen in ("eval", "conj"):
          f = key_gen.gen_evaluation_key if gen == "eval" else key_gen.gen_conjugate_key
          ek = f(sk, mods, aux, dnum, src)
          for part in range(np.asarray(ek.a).shape[0]):
            ph = (np.asarray(ek.b[part]).astype(object) + np.asarray(ek.a[part]).astype(object) * sx) % qa
            # on the auxiliary limbs the message is absent
            ee = cen(inv(ph[:, nq:], aux), aux)
            noise += ee[:, 0].tolist()
            masks += inv(ek.a[part], allm).reshape(-1).tolist()
      for bit in (0, 1):
        mrk = key_gen.gen_mux_rotation_key(sk, [bit, 1 - bit], mods, aux, 1, src)
        for pair in mrk.keys:
          for hk in pair:
            for ct in (hk.key0, hk.key1):
              d0, d1 = np.asarray(ct.data[0]).astype(object), np.asarray(ct.data[1]).astype(object)
              ee = cen(inv((d0 + d1 * sx)[:, nq:] % qa[nq:], aux), aux)
              noise += ee[:, 0].tolist()
              masks += inv(ct.data[1], allm).reshape(-1).tolist()
      _distinct(ctx, key, "switching key noise", noise)
      ctx.check(all(noise) and max(map(abs, noise)) < 20001, key, what="switching key noise")
      _distinct(ctx, key, "switching key mask", masks)
    ctx.cover(states=1, transitions=20, traces=10)
    ctx.outcome((deg, nq))
  # column keys draw their own randomness: equal plaintexts must not give equal ciphertexts
  deg, mods = 8, ck.primes(8, 28, 2)
  pk, sk = key_gen.keygen(deg, mods)
  for n in (1, 2, 3):
    with ctx.impl("ckks:fresh:columns"):
      cm = key_gen.gen_cm_keys(list(range(n)), pk, 2.0 ** 20)
      rows = [np.asarray(cm[i, j].data).tobytes() for i in range(n) for j in range(n)]
      ctx.check(len(set(rows)) == n * n, "ckks:fresh:columns", problem="repeated ciphertexts", n=n)
    ctx.cover(states=1, transitions=n * n, traces=1)
  a, b = key_gen.keygen(8, mods), key_gen.keygen(8, mods)
  ctx.check(not np.array_equal(a[0].data, b[0].data), "ckks:fresh:default", problem="two key pairs are equal")


SHARDS = {"contract": contract, "replay": replay, "fresh": fresh, "ckks": ckks}
