"""Number formats of jaxite_ec: integer <-> limb array <-> residue vector, losslessly, in every packing."""
import itertools

PROPERTY = "C24"
RULE = (
    "every integer below 2^17, every 2^k and neighbour up to the capacity, every pattern of limb "
    "extremes over three limbs and all-but-one patterns over all limbs, for every base; every value "
    "of every small modulus set; boundary values of the real one; all packings of up to 4 points of "
    "2-4 coordinates. Compared with positional notation and the residues' definition; the inverse "
    "direction must give the integer back; values that do not fit must be refused")


def _values(base, n):
  top = 1 << (base * n)
  vals = set()
  for k in range(base * n):
    vals |= {1 << k, (1 << k) - 1, (1 << k) + 1}
  m = (1 << base) - 1
  alpha = [0, 1, m, 1 << (base - 1), m - 1]
  for pat in itertools.product(alpha, repeat=min(3, n)):
    for pos in {0, n // 2, max(0, n - 3)}:
      vals.add(sum(v << (base * (pos + i)) for i, v in enumerate(pat)))
  for i in range(n):
    vals |= {m << (base * i), top - 1 - (m << (base * i)), top - 1 - (1 << (base * i))}
  vals |= {0, top - 1, top - 2}
  return sorted(v for v in vals if v < top)


def integers(ctx, base):
  import numpy as np
  import jax.numpy as jnp
  from jaxite.jaxite_ec import util
  from jaxite.jaxite_ec.algorithm import util as autil
  dt = {8: jnp.uint8, 16: jnp.uint16, 32: jnp.uint32}[base]

  def limbs(v, n):
    return [(v >> (base * i)) & ((1 << base) - 1) for i in range(n)]

  def natural(v):
    return -(-v.bit_length() // base)

  full = {8: 48, 16: 24, 32: 12}[base]
  for n in (1, 2, 3, full, full + 1):
    for v in _values(base, n):
      key = f"int:{base}:{n}:{v:#x}"
      w = limbs(v, n)
      with ctx.impl(key):
        t = util.int_to_precomputed_array(v, base, dtype=np.dtype(dt), array_size=n)
        ctx.check(list(t) == w, key + ":tuple", want=w[:4], got=str(t)[:120])
        ctx.check(util.array_to_int(np.array(w, dtype=np.uint32), base) == v, key + ":back")
        a = autil.int_to_array(v, base, n)
        ctx.check(a.tolist() == w and a.dtype == np.dtype(dt), key + ":algorithm", got=a[:4])
        ctx.check(autil.array_to_int(a, base) == v, key + ":algorithm back")
        ctx.check(autil.int_to_array(v, base).tolist() == limbs(v, natural(v)), key + ":algorithm natural")
      ctx.cover(states=1, transitions=5, traces=1)
    # the jax versions, a row at a time (their cost is the transfer, not the value)
    vals = _values(base, n)
    vals = vals if ctx.thorough or len(vals) < 260 else vals[:40] + vals[40:-40:9] + vals[-40:]
    for v in vals:
      key = f"jax:{base}:{n}:{v:#x}"
      with ctx.impl(key):
        a = util.int_to_array(v, base, dtype=dt, array_size=n)
        ctx.equal(key, np.array(limbs(v, n), dtype=np.dtype(dt)), a)
        ctx.check(a.dtype == dt, key + ":dtype", got=a.dtype)
        if n == full:
          ctx.equal(key + ":natural", np.array(limbs(v, natural(v)), dtype=np.dtype(dt)),
                    util.int_to_array(v, base, dtype=dt, array_size=None))
      ctx.cover(states=1, transitions=2, traces=1)
    # too big for the array
    for v in (1 << (base * n), (1 << (base * n)) + 5, 1 << (base * n + base)):
      for name, fn in (("jax", lambda: util.int_to_array(v, base, dtype=dt, array_size=n)),
                       ("tuple", lambda: util.int_to_precomputed_array(v, base, array_size=n)),
                       ("algorithm", lambda: autil.int_to_array(v, base, n))):
        ctx.raises(f"overflow:{name}:{base}:{n}:{v:#x}", (AssertionError, ValueError, OverflowError), fn)
        ctx.cover(states=1, transitions=1)
  # lists
  if base == 16:
    vals = _values(16, 24)[::7]
    with ctx.impl("list"):
      a = util.int_list_to_array(vals, 16, 24)
      ctx.equal("list", np.array([limbs(v, 24) for v in vals]), a)
      ctx.check(util.array_to_int_list(a, 16) == vals, "list:back")
      ctx.check(autil.int_list_to_array(vals, 16, 24).tolist() == [limbs(v, 24) for v in vals], "list:algorithm")
    ctx.cover(states=len(vals), transitions=3, traces=len(vals))
  for v in range(1 << 17 if ctx.thorough else 70000):
    n = natural(v)
    t = util.int_to_precomputed_array(v, base, dtype=np.dtype(dt), array_size=None) if v % 64 == 0 else None
    if t is not None and list(t) != limbs(v, n):
      ctx.fail(f"small:{base}:{v}", got=str(t))
    if util.array_to_int(limbs(v, max(n, 1)), base) != v:
      ctx.fail(f"small back:{base}:{v}")
  ctx.cover(states=70000, transitions=70000, traces=70000)
  ctx.bound(base=base)


def rns(ctx):
  import math
  import numpy as np
  from jaxite.jaxite_ec import util
  from mc import ec
  ctx.check(all(math.gcd(a, b) == 1 for a, b in itertools.combinations(util.MODULI, 2)), "moduli coprime")
  ctx.check(len(util.MODULI) == util.NUM_MODULI == len(util.RNS_MODULI_T), "moduli count")
  for m, t in zip(util.MODULI, util.RNS_MODULI_T):
    ctx.check((2**16 - t) % m == 0 and m <= 2**16, "moduli offset", m=m, t=t)
  r = ec.Rns(util.MODULI)
  vals = {0, 1, ec.P, ec.P - 1, ec.P**2, r.m - 1, r.m // 2, r.m // 3}
  for i in range(r.m.bit_length()):
    vals |= {1 << i, (1 << i) - 1}
  for m, f in zip(r.moduli, r.f):
    vals |= {m, m - 1, r.m - m, r.m // m, f, f * (m - 1) % r.m}
  vals = sorted(v for v in vals if v < r.m)
  for i, v in enumerate(vals):
    key = f"rns:{v:#x}"
    with ctx.impl(key):
      w = [v % m for m in r.moduli]
      ctx.check([int(x) for x in util.int_to_array_rns(v)] == w, key)
      if ctx.thorough or i % 6 == 0:
        ctx.check(util.array_rns_to_int(w) == v, key + ":back")
    ctx.cover(states=1, transitions=2, traces=1)
  pre = util.rns_precompute(util.MODULI)
  for v in vals:
    with ctx.impl("reconstruct"):
      ctx.check(util.rns_reconstruct([v % m for m in r.moduli], util.MODULI, pre) == v, f"reconstruct:{v:#x}")
  some = vals[::9]
  with ctx.impl("rns list"):
    a = util.int_list_to_array_rns(some)
    ctx.equal("rns list", r.to(some).astype(np.int64), np.asarray(a).astype(np.int64))
    ctx.check(util.array_rns_to_int_list(a) == some, "rns list:back")
  ctx.cover(states=len(some), transitions=2, traces=len(some))
  # every value of every small system
  sets = [c for k in (1, 2, 3) for c in itertools.permutations((2, 3, 5, 7, 11, 16, 17), k)
          if all(math.gcd(a, b) == 1 for a, b in itertools.combinations(c, 2))]
  for c in sets:
    q = math.prod(c)
    key = f"small rns:{c}"
    with ctx.impl(key):
      ctx.check(util.total_modulus(c) == q, key + ":total")
      pre = util.rns_precompute(c)
      for x in range(q):
        w = util.to_rns(x, c)
        if list(w) != [x % m for m in c] or util.rns_reconstruct(w, c, pre) != x:
          ctx.fail(key, x=x)
      ctx.raises(key + ":too big", AssertionError, lambda: util.to_rns(q, c))
    ctx.cover(states=q, transitions=2 * q, traces=q)
  # moduli search: coprime, and enough of them whenever it stops early
  for prec in (8, 10, 12, 16):
    for bits in list(range(1, 12 * prec, max(1, prec // 2))) + [786]:
      key = f"find_moduli:{prec}:{bits}"
      with ctx.impl(key):
        mods, offs = util.find_moduli(1 << bits, prec)
        ctx.check(all(math.gcd(a, b) == 1 for a, b in itertools.combinations(mods, 2)), key + ":coprime", mods=mods)
        ctx.check(all((2**prec - t) % m == 0 for m, t in zip(mods, offs)) and len(mods) == len(offs), key + ":offsets")
        if prec == 16:
          ctx.check(math.prod(mods) > 1 << bits, key + ":enough", product=math.prod(mods).bit_length())
      ctx.cover(states=1, transitions=1, traces=1)


def packs(ctx):
  import numpy as np
  import jax.numpy as jnp
  from jaxite.jaxite_ec import util
  from mc import ec
  r = ec.Rns(util.MODULI)
  pool = [0, 1, ec.P - 1, (1 << 384) - 1, (1 << 383) + 3, 0xFFFF, 1 << 16, ec.G[0], ec.G[1], ec.D]
  for nc, b, shift in itertools.product((2, 3, 4), (1, 2, 3, 4), range(4)):
    pts = [[pool[(3 * i + 5 * c + shift) % len(pool)] + 7 * i for c in range(nc)] for i in range(b)]
    pts = [[min(v, (1 << 384) - 1) for v in p] for p in pts]
    key = f"pack:{nc}x{b}:{shift}"
    w = np.stack([ec.chunks([p[c] for p in pts], 24) for c in range(nc)])
    wr = np.stack([r.to([p[c] for p in pts]) for c in range(nc)])
    with ctx.impl(key):
      a = util.int_point_batch_to_jax_point_pack(pts)
      ctx.equal(key + ":batch", w, a)
      ctx.check(a.dtype == jnp.uint16, key + ":dtype", got=a.dtype)
      ctx.check(util.jax_point_pack_to_int_point_batch(a) == pts, key + ":batch back")
      e = util.int_point_batch_to_jax_point_pack(pts, util.BASE, 25)
      ctx.equal(key + ":ext", np.concatenate([w, np.zeros((nc, b, 1), w.dtype)], -1), e)
      ctx.check(util.jax_point_pack_to_int_point_batch(e) == pts, key + ":ext back")
      s = util.int_point_to_jax_point_pack(pts[0])
      ctx.equal(key + ":one", w[:, 0], s)
      ctx.check(util.jax_point_pack_to_int_point(s) == pts[0], key + ":one back")
      ar = util.int_point_batch_to_jax_rns_point_pack(pts)
      ctx.equal(key + ":rns batch", wr.astype(np.int64), np.asarray(ar).astype(np.int64))
      sr = util.int_point_to_jax_rns_point_pack(pts[0])
      ctx.equal(key + ":rns one", wr[:, 0].astype(np.int64), np.asarray(sr).astype(np.int64))
      if shift == 0:
        ctx.check(util.jax_rns_point_pack_to_int_point_batch(ar) == pts, key + ":rns batch back")
        ctx.check(util.jax_rns_point_pack_to_int_point(sr) == pts[0], key + ":rns one back")
    ctx.cover(states=1, transitions=10, traces=1)
    ctx.outcome((nc, b))
  # the lazily reduced rows used by the matrix reduction
  for p in (ec.P, 251, 65521, (1 << 61) - 1, (1 << 255) - 19):
    n = (p.bit_length() + 7) // 8
    with ctx.impl(f"lazy matrix:{p}"):
      m = util.construct_lazy_matrix(p, 8, n)
      for i, row in enumerate(m):
        v = sum(int(x) << (8 * j) for j, x in enumerate(row))
        ctx.check(v == pow(256, n + i, p), f"lazy matrix:{p}:{i}")
      ctx.check(len(m) == n + 4, f"lazy matrix:{p}:rows")
    ctx.cover(states=n, transitions=1, traces=n)


SHARDS = {"integers": integers, "rns": rns, "packs": packs}


def shards(tier):
  return [(f"integers@{b}", {"base": b}) for b in (8, 16, 32)] + [("rns", {}), ("packs", {})]
