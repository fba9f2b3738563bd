"""Blind rotation rotates by the encrypted index."""
import itertools

PROPERTY = "C22"
RULE = (
    "automorphisms: every odd exponent of every ring degree in bounds on a basis; lifting, HMuxRot, "
    "BRotMux and BRotCM on every selector bit, rotation, secret index, stride and column, for "
    "every number of Q and P limbs in bounds and boundary coefficients; the resulting phase is "
    "compared over the integers with the rotated phase, within the rounding bound")


def auto(ctx):
  import numpy as np
  import jax.numpy as jnp
  from jaxite.jaxite_ckks import blind_rotate_utils as bu
  from mc import ckks as ck
  from mc.checks import c21
  for n in (2, 4, 8, 16, 32) + ((64,) if ctx.quick else (64, 128, 256)):
    mods = c21.chain(n, [28, 31])
    basis = [[int(i == j) for j in range(n)] for i in range(n)]
    basis.append([(7 * j * j + 3) % 1000 - 500 for j in range(n)])
    data = np.stack([c21.slots(b, mods) for b in basis])
    gs = range(1, 2 * n, 2)
    if ctx.quick and n >= 32:
      gs = sorted({pow(5, j, 2 * n) for j in range(n // 2)})[:: n // 16] + [2 * n - 1, 3, n - 1, n + 1]
    for g in gs:
      with ctx.impl(f"automorphism:n{n}:g{g}"):
        got = np.asarray(bu.apply_automorphism_ntt(jnp.asarray(data), g))
        want = np.stack([c21.slots(ck.automorphism(b, g, mods[0] * mods[1]), mods) for b in basis])
        ctx.equal(f"automorphism:n{n}:g{g}", want, got)
        one = np.asarray(bu.apply_automorphism_ntt(jnp.asarray(data[-1]), g))
        ctx.equal(f"automorphism:n{n}:g{g}:single", want[-1], one)
      ctx.cover(states=1, transitions=2, traces=len(basis))
      ctx.outcome((n, g))


def cfgs(tier):
  out = [([28], [31]), ([30], [30]), ([28, 30], [31]), ([30, 28], [31, 30]), ([28, 30, 31], [31, 31]), ([31], [31, 28, 30])]
  if tier == "thorough":
    out += [([a, b], [c, d]) for a in (28, 31) for b in (20, 31) for c in (28, 31) for d in (30, 31)]
  return out


def _setup(n, qs, ps):
  import jax.numpy as jnp
  from jaxite.jaxite_ckks import blind_rotate
  from mc.checks import c21
  mods = c21.chain(n, list(qs) + list(ps))
  q, p = mods[:len(qs)], mods[len(qs):]
  k = blind_rotate.BlindRotation()
  return q, p, k, jnp.array(p, dtype=jnp.uint32)


def ct_of(polys, q):
  import numpy as np
  import jax.numpy as jnp
  from jaxite.jaxite_ckks import types
  from mc.checks import c21
  return types.Ciphertext(jnp.asarray(np.stack([c21.slots(x, q) for x in polys]).astype(np.uint32)),
                          jnp.asarray(q, dtype=jnp.uint32))


def hmux(ctx, part, parts, n=8):
  import math
  import numpy as np
  from jaxite.jaxite_ckks import key_gen
  from mc import ckks as ck
  from mc.checks import c21
  for wi, (qs, ps) in enumerate(cfgs(ctx.tier)):
    if wi % parts != part:
      continue
    q, p, k, p_arr = _setup(n, qs, ps)
    qv, pv, mods = math.prod(q), math.prod(p), q + p
    r, c = ((2, 4), (4, 2))[wi % 2]
    with ctx.impl(f"hmux:{q}:{p}"):
      k.precompute_constants(c21.chain(n, [29, 20]), c21.chain(n, [27]), 1, c, r)  # an earlier set-up leaves no trace
      k.precompute_constants(list(q), list(p), 1, r, c, num_rescales=len(p))
    polys = c21.poly_set(q, n)
    for ki, s in enumerate(c21.KEYS8[:3]):
      sk = c21.secret(s, q)
      for beta, j in itertools.product((0, 1), range(n // 2 + 1)):
        for noise in (0, (1, -3, 2, 5)) if ki == 0 else (0,):
          emax = 0 if noise == 0 else 5
          key = f"hmux:q{q}:p{p}:beta{beta}:j{j}"
          with ctx.impl(key):
            rs = ck.Script(gauss=noise, salt=5 + ki)
            hk = key_gen.gen_hmuxrot_key(sk, beta, j, list(q), list(p), random_source=rs)
            g = pow(5, -j, 2 * n)
            # the key itself
            big = qv * pv
            for nm, kk, target in (("key0", hk.key0, [x * beta for x in ck.automorphism(s, g, big)]),
                                   ("key1", hk.key1, [beta] + [0] * (n - 1))):
              ph = c21.phase(np.asarray(kk.data), s, mods)
              # P * target vanishes modulo P, so it is enough to know target modulo Q
              err = [c21.centred(int(a) - pv * int(t), big) for a, t in zip(ph, target)]
              ctx.check(max(map(abs, err)) <= emax, key + ":" + nm, problem="not P * target plus noise", err=str(err[:3]))
            for i, x in enumerate(c21.pick(polys, 2, j + ki)):
              y = polys[(i * 3 + 2) % len(polys)]
              ct = ct_of([y, x], q)
              before = np.asarray(ct.data)
              out = k.hmuxrot(ct, hk, j, p_arr)
              data = np.asarray(out.data)
              if not ctx.check(data.shape == before.shape and np.asarray(out.moduli).tolist() == q, key, problem="shape",
                               got=data.shape):
                continue
              want = [beta * v for v in ck.automorphism(c21.phase(before, s, q), g, qv)]
              err = [c21.centred(int(a) - int(b), qv) for a, b in zip(c21.phase(data, s, q), want)]
              bound = (1 + sum(map(abs, s))) / 2 + 1 + 2 * n * emax * len(q) * qv / pv
              ctx.check(max(map(abs, err)) <= bound, key, problem="not the selected rotation", error=str(max(err, key=abs)),
                        bound=bound, secret=s, coefficients=[str(v) for v in x])
              ctx.equal(key + ":operand", before, np.asarray(ct.data))
              ctx.cover(states=1, transitions=1, traces=1)
          ctx.outcome((wi, beta, j))


def mux(ctx, part, parts, n=8):
  import math
  import numpy as np
  from jaxite.jaxite_ckks import encode
  from jaxite.jaxite_ckks import encrypt
  from jaxite.jaxite_ckks import key_gen
  from mc import ckks as ck
  from mc.checks import c21
  half = n // 2
  nb = half.bit_length() - 1
  work = [(cfg, idx, st) for cfg in cfgs(ctx.tier) for idx in range(half) for st in (1, 2, 3)]
  if ctx.quick:
    work = [(cfg, i, st) for cfg, i, st in work if st == 1 or len(cfg[1]) == 2]
  kernels = {}
  for wi, ((qs, ps), idx, stride) in enumerate(work):
    if wi % parts != part:
      continue
    key = f"mux:{qs}:{ps}:index{idx}:stride{stride}"
    with ctx.impl(key):
      kk = (tuple(qs), tuple(ps))
      if kk not in kernels:
        q, p, k, p_arr = _setup(n, qs, ps)
        k.precompute_constants(list(q), list(p), 1, 2, 4, num_rescales=len(p))
        kernels[kk] = (q, p, k, p_arr)
      q, p, k, p_arr = kernels[kk]
      qv = math.prod(q)
      s = c21.KEYS8[wi % 5]
      sk = c21.secret(s, q)
      bits = [(idx >> b) & 1 for b in range(nb)]
      rs = ck.Script(gauss=0, salt=wi + 1)
      mk = key_gen.gen_mux_rotation_key(sk, bits, list(q), list(p), stride=stride, random_source=rs)
      masks = [np.asarray(h.data[1]).tobytes() for pr in mk.keys for hm in pr for h in (hm.key0, hm.key1)]
      ctx.check(len(masks) == 4 * nb and len(set(masks)) == len(masks), key, problem="keys share masks")
      scale = 2.0 ** 20
      mu = [complex(v % 5 - 2, (v * 3) % 7 - 3) for v in range(half)]
      enc = encode.Encode(n, list(q), scale)
      msg = c21.integers(np.asarray(enc.encode(mu).data), q)
      polys = c21.poly_set(q, n)
      for i in range(2):
        x = polys[(wi + i) % len(polys)]
        sx = ck.negacyclic(x, s, qv)
        y = [(int(m) - v) % qv for m, v in zip(msg, sx)] if i == 0 else polys[(wi * 3 + 1) % len(polys)]
        ct = ct_of([y, x], q)
        before = np.asarray(ct.data)
        out = k.brot_mux(ct, mk, p_arr, 0, stride) if stride != 1 else k.brot_mux(ct, mk, p_arr)
        data = np.asarray(out.data)
        if not ctx.check(data.shape == before.shape and np.asarray(out.moduli).tolist() == q, key, problem="shape", got=data.shape):
          continue
        g = pow(5, -idx * stride, 2 * n)
        want = ck.automorphism(c21.phase(before, s, q), g, qv)
        err = [c21.centred(int(a) - int(b), qv) for a, b in zip(c21.phase(data, s, q), want)]
        bound = nb * 2 * ((1 + sum(map(abs, s))) / 2 + 1)
        ctx.check(max(map(abs, err)) <= bound, key, problem="not rotated by the index", error=str(max(err, key=abs)), bound=bound,
                  secret=s)
        ctx.equal(key + ":operand", before, np.asarray(ct.data))
        if i == 0:
          dec = encode.Decode(scale, half).decode(encrypt.Decrypt(sk).decrypt(out))
          ctx.close(key + ":slots", np.roll(mu, idx * stride), np.array(dec), (bound + 1) * n / scale + 1e-6)
        ctx.cover(states=1, transitions=2 * nb, traces=1)
      ctx.outcome((idx, stride))


def cm(ctx, part, parts):
  import math
  import numpy as np
  import jax.numpy as jnp
  from jaxite.jaxite_ckks import encode
  from jaxite.jaxite_ckks import key_gen
  from mc import ckks as ck
  from mc.checks import c21
  for wi, (qs, ps) in enumerate(cfgs(ctx.tier)):
    if wi % parts != part:
      continue
    for n, r, c in ((8, 2, 4), (4, 2, 2)):
      half = n // 2
      q, p, k, p_arr = _setup(n, qs, ps)
      mods = q + p
      qv, pv, big = math.prod(q), math.prod(p), math.prod(mods)
      scale = 2.0 ** 22
      with ctx.impl(f"cm:{q}:{p}:n{n}"):
        k.precompute_constants(list(q), list(p), 1, r, c, num_rescales=len(p))
        s = [1, -1, 0, 1, 1, -1, -1, 1][:n] if wi % 2 else [0, 1] * (n // 2)
        pk, _ = key_gen.keygen(n, list(mods), random_source=ck.Script(gauss=(1, -2, 0), ternary=s, salt=3))
        for idxs in ([list(range(half)), list(range(half))[::-1], [2, 0][:half]] if ctx.quick else
                     [list(t) for m in range(1, half + 1) for t in itertools.permutations(range(half), m)]):
          keys = key_gen.gen_cm_keys(idxs, pk, scale)
          ctx.check(keys.shape == (len(idxs), len(idxs)), f"cm:keys:n{n}", problem="shape", got=keys.shape)
          one = c21.integers(np.asarray(encode.Encode(n, list(mods), scale).encode([1 + 0j] * half).data), mods)
          phs = {}
          for i, j in itertools.product(range(len(idxs)), repeat=2):
            ph = c21.phase(np.asarray(keys[i, j].data), s, mods)
            phs[i, j] = ph
            e = [int(a) - (int(b) if i == j else 0) for a, b in zip(ph, one)]
            ctx.check(max(map(abs, e)) <= 64 * (2 * n + 1), f"cm:keys:n{n}", problem="not an encryption of the identity",
                      i=i, j=j, error=str(e[:2]))
          dm = {np.asarray(x.data[1]).tobytes() for x in keys.flatten()}
          ctx.check(len(dm) == keys.size, f"cm:keys:n{n}", problem="keys share randomness")
          mu = [complex(v % 5 - 2, (v * 3) % 7 - 3) for v in range(half)]
          enc = encode.Encode(n, list(mods), scale)
          pts = [enc.encode(list(np.roll(mu, i))) for i in range(len(idxs))]
          for j in range(len(idxs)):
            key = f"cm:q{q}:p{p}:n{n}:{idxs}:{j}"
            before = [np.asarray(x.data) for x in keys[j]] + [np.asarray(x.data) for x in pts]
            out = k.brot_cm(list(keys[j]), pts)
            data = np.asarray(out.data)
            if not ctx.check(data.shape == (2, n, len(q)) and np.asarray(out.moduli).tolist() == q, key, problem="shape",
                             got=data.shape):
              continue
            tot = [0] * n
            for i, pt in enumerate(pts):
              tot = [a + b for a, b in zip(tot, ck.negacyclic(phs[j, i], c21.integers(np.asarray(pt.data), mods), big))]
            want = [c21.centred(v, big) / pv for v in tot]
            got = c21.phase(data, s, q)
            err = max(abs(float(c21.centred(int(a) - round(w), qv))) for a, w in zip(got, want))
            bound = (1 + sum(map(abs, s))) / 2 + 1.5
            ctx.check(err <= bound, key, problem="not the sum of products over P", error=err, bound=bound)
            for a, b in zip(before, [np.asarray(x.data) for x in keys[j]] + [np.asarray(x.data) for x in pts]):
              ctx.equal(key + ":operand", a, b)
            ctx.cover(states=1, transitions=len(idxs), traces=1)
          ctx.outcome((n, tuple(idxs)))
        short = list(keys[0])
        ctx.raises("cm:lengths", ValueError, lambda: k.brot_cm(short, pts[:-1]))
        q_pts = [encode.Encode(n, list(q), scale).encode(mu) for _ in pts]
        ctx.raises("cm:moduli", ValueError, lambda: k.brot_cm(short, q_pts))


def lift(ctx, n=8):
  import math
  import numpy as np
  import jax.numpy as jnp
  from jaxite.jaxite_ckks import basis_conversion
  from jaxite.jaxite_ckks import blind_rotate_utils as bu
  from jaxite.jaxite_ckks import ntt
  from mc.checks import c21
  chains = [([0, 0], [0]), ([0], [0, 0]), ([0, 0], [0, 0])] + cfgs(ctx.tier)
  for qs, ps in chains:
    q, p = c21._build(n, qs, ps)
    qv = math.prod(q)
    polys = c21.poly_set(q, n)
    for r, c in ((2, 4), (4, 2)):
      key = f"lift:{q}:{p}:{r}x{c}"
      with ctx.impl(key):
        bc = basis_conversion.BasisConversionBarrett()
        qi, pi = list(range(len(q))), list(range(len(q), len(q) + len(p)))
        bc.precompute_constants(q + p, [(pi, qi), (qi, pi)])
        nq, npk = ntt.NTTBarrett(), ntt.NTTBarrett()
        nq.precompute_constants(list(q), r, c)
        npk.precompute_constants(list(p), r, c)
        for size in (1, 2, 3, len(polys)):
          ct = ct_of(polys[:size], q)
          before = np.asarray(ct.data)
          out = bu.lift_ciphertext(ct, bc, 1, jnp.array(p, dtype=jnp.uint32), nq, npk, r, c)
          data = np.asarray(out.data)
          if not ctx.check(data.shape == (min(size, len(polys)), n, len(q + p)) and np.asarray(out.moduli).tolist() == q + p, key,
                           problem="shape", got=data.shape):
            continue
          ctx.equal(key + ":operand", before, np.asarray(ct.data))
          for x, d in zip(polys, data):
            ctx.equal(key + ":q", before[0] * 0 + c21.slots(x, q).astype(before.dtype), d[:, :len(q)])
            import itertools as it
            pv = math.prod(p)
            ints = c21.integers(d[:, len(q):], p)
            for a, b in zip(ints, x):
              ok = any((int(a) - (int(b) + u * qv)) % pv == 0 for u in range(len(q)))
              if not ctx.check(ok, key + ":p", problem="not x + u*Q", x=str(b), got=str(a)):
                break
            ctx.cover(states=n, transitions=1, traces=n)
    ctx.outcome((tuple(q), tuple(p)))


SHARDS = {"auto": auto, "hmux": hmux, "mux": mux, "cm": cm, "lift": lift}


def shards(tier):
  h = 6 if tier == "quick" else 11
  return ([("auto", {}), ("lift", {})] + [(f"hmux@{i}", {"part": i, "parts": h}) for i in range(h)]
          + [(f"mux@{i}", {"part": i, "parts": 4}) for i in range(4)] + [(f"cm@{i}", {"part": i, "parts": 2}) for i in range(2)])
