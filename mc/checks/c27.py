"""Multi-scalar multiplication (Pippenger): every class returns sum k_i P_i."""
import itertools

PROPERTY = "C27"
RULE = (
    "stages: bucket accumulation for every sequence of bucket choices of the bounded length, bucket "
    "reduction for every pattern of empty buckets, window merge for every pattern of empty windows, "
    "each in the scanned and the unrolled form; whole computations: all scalar tuples over boundary "
    "scalars (zero, one, window extremes, carry chains, group order - 1) x window widths x parallel "
    "widths, for all five classes; on the twisted curve also equal, opposite and neutral points. "
    "Oracle: affine arithmetic over Python integers")

# fixed multiples of the generator without small linear relations
NS = [0x1d2c3b4a59687766554433221100ffeeddccbbaa99887766, 0x7b1f0a95e4c3d2b1a09f8e7d6c5b4a392817, 0x3, 0x5f3759df6b8b4567327b23c6643c9869,
      0xb7e151628aed2a6abf7158809cf4f3c7, 0x243f6a8885a308d313198a2e03707344a4093822299f31d0]


class Kind:

  def __init__(self, name):
    import numpy as np
    from jaxite.jaxite_ec import pippenger, pippenger_rns, util
    from mc import ec
    self.name, self.ec, self.np = name, ec, np
    self.mod = pippenger_rns if name.startswith("rns") else pippenger
    self.rns = ec.Rns(util.MODULI) if name.startswith("rns") else None
    self.twisted = "twisted" in name
    self.signed = "signed" in name
    self.cls = getattr(self.mod, "MSMPippengerTwistedSigned" if self.signed else "MSMPippengerTwisted" if self.twisted else "MSMPippenger")
    self.jitted = {}

  def coords(self, k):
    """Coordinates as the classes take them, of kG."""
    if self.twisted:
      return self.ec.ext(self.ec.tmult(k))
    return list(self.ec.mult(k))

  def pack(self, ks):
    """(4, n, limbs) of the points kG; k=None is the neutral element as the code stores it."""
    pts = []
    for k in ks:
      if self.twisted:
        pts.append(self.ec.ext(self.ec.tmult(k or 0)))
      else:
        pts.append([0, 0, 0, 0] if k is None or k % self.ec.R == 0 else self.ec.xyzz(self.ec.mult(k)))
    f = self.rns.to if self.rns else (lambda v: self.ec.chunks(v, 25))
    return self.np.stack([f([p[c] for p in pts]) for c in range(4)])

  def decode(self, a):
    """(4, limbs) -> affine point."""
    a = self.np.asarray(a)
    f = self.rns.back if self.rns else self.ec.unchunk
    c = f(a)
    if self.rns:
      c = [v - self.rns.m if v > self.rns.m // 2 else v for v in c]
    return self.ec.from_ext(c) if self.twisted else self.ec.from_xyzz(c)

  def expect(self, k):
    return self.ec.tmult(k) if self.twisted else self.ec.mult(k)

  def jit(self, fn, **static):
    import functools
    import jax
    key = (fn.__name__, tuple(static.items()))
    if key not in self.jitted:
      self.jitted[key] = jax.jit(functools.partial(fn, **static))
    return self.jitted[key]

  def msm(self, slice_length, par, scalars, points, scan=True):
    m = self.mod
    obj = self.cls(slice_length, par) if self.twisted else self.cls(slice_length)
    obj.initialize(scalars, points)
    b = obj.bucket_num_per_window
    if self.twisted:
      acc = (m.bucket_accumulation_signed_index_scan_parallel_algorithm_twisted if self.signed
             else m.bucket_accumulation_index_scan_parallel_algorithm_twisted)
      obj.bucket_accumulation(self.jit(acc, msm_length=len(scalars) // par))
      obj.bucket_reduction(self.jit(m.bucket_reduction_scan_algorithm_twisted, bucket_num_in_window=b))
      obj.batch_window_summation(self.jit(m.batch_window_summation_algorithm_twisted, point_parallel=par))
      return obj.window_merge(self.jit(m.window_merge_scan_algorithm_twisted, slice_length=slice_length))
    if scan:
      obj.bucket_accumulation(self.jit(m.bucket_accumulation_index_scan_algorithm, msm_length=len(scalars)))
    else:
      obj.bucket_accumulation(lambda *a: m.bucket_accumulation_index_algorithm(*a, msm_length=len(scalars)))
    obj.bucket_reduction(self.jit(m.bucket_reduction_scan_algorithm, bucket_num_in_window=b))
    return obj.window_merge(self.jit(m.window_merge_scan_algorithm, slice_length=slice_length))


def scalars_for(c, r):
  full = (1 << c) - 1
  rep = lambda d: sum(d << (c * i) for i in range(252 // c))
  return [1, 0, r - 1, 2, full, 1 << c, (1 << c) + 1, 1 << 252, r - 2, rep(full) % r, rep(1 << (c - 1)) % r,
          rep((1 << (c - 1)) - 1) % r, (1 << 252) + rep(full) % (1 << 252) - (1 << 250), 1 << (c * (252 // c)), (1 << 128) - 1,
          rep(1), r // 2, r // 3, (full << (5 * c)) + full, (1 << 251) - 1, full - 1 or 1, 1 << 200]


def whole(ctx, name, slices, lengths, par=1, limit=None):
  k = Kind(name)
  r = k.ec.R
  for c in slices:
    ks = [s for s in scalars_for(c, r) if s < r]
    for n in lengths:
      work = [tuple([s] + [ks[(i + 3 * j) % len(ks)] for j in range(1, n)]) for i, s in enumerate(ks)]
      if n == 1:
        work = [(s,) for s in ks]
      elif k.rns and ctx.thorough and n == 2:
        work = list(itertools.product(ks, ks))
      work += [(0,) * n, (1,) + (0,) * (n - 1), (0,) * (n - 1) + (1,), (r - 1,) * n]
      work = list(dict.fromkeys(work))
      if limit:
        work = work[-3:] + work[:-3]
        work = work[:limit]
      for w, sc in enumerate(work):
        ns = [NS[(w + i) % len(NS)] for i in range(n)]
        if k.twisted:  # complete addition law: any points
          if w % 5 == 1 and n > 1:
            ns[1] = ns[0]
          elif w % 5 == 2 and n > 1:
            ns[1] = -ns[0] % r
          elif w % 5 == 3:
            ns[-1] = 0
        key = f"msm:{name}:slice {c}:par {par}:scalars {[hex(s) for s in sc]}:points {w}"
        with ctx.impl(f"msm:{name}:slice {c}", scalars=[hex(s) for s in sc]):
          pts = [k.coords(x) for x in ns]
          before = [list(p) for p in pts], list(sc)
          scal = list(sc)
          got = k.decode(k.msm(c, par, scal, pts, scan=bool(w % 4) or not k.rns))
          want = sum(s * x for s, x in zip(sc, ns)) % r
          ctx.check(got == k.expect(want), f"msm:{name}:slice {c}", scalars=[hex(s) for s in sc], points=[hex(x) for x in ns],
                    par=par, got="not a point" if got == "bad" else "wrong point")
          ctx.check((pts, scal) == before, f"msm:{name}:inputs kept")
        ctx.cover(states=1, transitions=4, traces=1)
        ctx.outcome((name, c, n))
  ctx.bound(**{name: f"slices {slices}, lengths {lengths}, parallel {par}"})


def accumulate(ctx, name):
  """Every sequence of bucket choices, one per window of the batch."""
  import jax.numpy as jnp
  k = Kind(name)
  np, r = k.np, k.ec.R
  nb, n = (4, 3) if k.rns or ctx.thorough else (3, 3)
  seqs = list(itertools.product(range(nb), repeat=n))  # bucket of point i in window w
  w = len(seqs)
  ks = NS[:n]
  sel = np.array(seqs, dtype=np.uint32).T  # (n, w)
  pts = k.pack(ks).transpose(1, 0, 2)  # (n, 4, limbs)
  want = [[sum(ks[i] for i in range(n) if s[i] == b) % r for b in range(nb)] for s in seqs]
  forms = []
  if not k.twisted:
    blank = np.broadcast_to(k.pack([None])[:, :, None], (4, w, nb, pts.shape[-1]))
    zs = np.ones((n, w, nb), np.uint8)
    for i in range(n):
      for j, s in enumerate(seqs):
        for t in range(i):
          zs[i, j, s[t]] = 0
    args = (jnp.asarray(blank), jnp.asarray(pts), jnp.asarray(sel), jnp.asarray(zs))
    forms = [("index scan", k.jit(k.mod.bucket_accumulation_index_scan_algorithm, msm_length=n), args),
             ("index", lambda *a: k.mod.bucket_accumulation_index_algorithm(*a, msm_length=n), args)]
    if k.rns or w * nb <= 128:
      one = np.zeros((n, w, nb), np.uint8)
      for i in range(n):
        one[i, np.arange(w), sel[i]] = 1
      flat = (jnp.asarray(blank.reshape(4, w * nb, -1)), jnp.asarray(pts), jnp.asarray(one.reshape(n, -1)), jnp.asarray(zs.reshape(n, -1)))
      forms += [("mask scan", k.jit(k.mod.bucket_accumulation_scan_algorithm, msm_length=n), flat),
                ("mask", lambda *a: k.mod.bucket_accumulation_algorithm(*a, msm_length=n), flat)]
  else:
    # index -1 (as uint32) means "no bucket"
    blank = np.broadcast_to(k.pack([0])[:, :, None], (4, w, nb, pts.shape[-1]))
    sel = np.where(sel == nb - 1, np.uint32(0xFFFFFFFF), sel).astype(np.uint32)
    want = [[sum(ks[i] for i in range(n) if s[i] == b) % r for b in range(nb - 1)] + [0] for s in seqs]
    p4 = pts[:, :, None, :]  # (serial, 4, parallel, limbs)
    if k.signed:
      sign = np.array([[(i + j) % 2 for j in range(w)] for i in range(n)], dtype=np.uint8)
      want = [[sum((-1 if sign[i, j] else 1) * ks[i] for i in range(n) if s[i] == b) % r for b in range(nb - 1)] + [0]
              for j, s in enumerate(seqs)]
      forms = [("scan", k.jit(k.mod.bucket_accumulation_signed_index_scan_parallel_algorithm_twisted, msm_length=n),
                (jnp.asarray(blank), jnp.asarray(p4), jnp.asarray(sel), jnp.asarray(sign)))]
    else:
      forms = [("scan", k.jit(k.mod.bucket_accumulation_index_scan_parallel_algorithm_twisted, msm_length=n),
                (jnp.asarray(blank), jnp.asarray(p4), jnp.asarray(sel)))]
  for form, fn, args in forms:
    key = f"accumulate:{name}:{form}"
    with ctx.impl(key):
      out = np.asarray(fn(*args)).reshape(4, w, nb, -1)
      for j, s in enumerate(seqs):
        for b in range(nb):
          if not ctx.check(k.decode(out[:, j, b]) == k.expect(want[j][b]), key, sequence=s, bucket=b):
            break
    ctx.cover(states=w * nb, transitions=w * n, traces=w)
    ctx.outcome(key)
  ctx.bound(buckets=nb, points=n)


def reduce(ctx, name):
  """Every pattern of empty buckets."""
  import jax.numpy as jnp
  k = Kind(name)
  np, r = k.np, k.ec.R
  nb = 8 if k.rns or ctx.thorough else 7  # buckets 0..nb-1 (0 does not count), or 1..nb-1 on the twisted curve
  pats = list(itertools.product((0, 1), repeat=nb - 1))
  for lo in range(0, len(pats), 64):
    part = pats[lo:lo + 64]
    w = len(part)
    # window j, bucket b (1..): NS-multiple if occupied
    val = [[None] + [(NS[b % 6] * (b + 1) + j) % r if p[b] else None for b in range(nb - 1)] for j, p in enumerate(part)]
    if not k.twisted:
      for j in range(w):
        val[j][0] = NS[j % 6] if j % 2 else None
    want = [sum(b * v for b, v in enumerate(row) if v) % r for row in val]
    if k.twisted:
      # windows with equal and opposite neighbours
      for j in range(0, w, 7):
        if val[j][-1] and val[j][-2]:
          val[j][-2] = val[j][-1]
      for j in range(3, w, 7):
        if val[j][-1] and val[j][-2]:
          val[j][-2] = -val[j][-1] % r
      want = [sum(b * v for b, v in enumerate(row) if v) % r for row in val]
      arr = k.pack([v for row in val for v in row[1:]]).reshape(4, w, nb - 1, -1)
      z = np.broadcast_to(k.pack([0]), (4, w, arr.shape[-1]))
      forms = [("scan", k.jit(k.mod.bucket_reduction_scan_algorithm_twisted, bucket_num_in_window=nb - 1),
                (jnp.asarray(arr), jnp.asarray(z), jnp.asarray(z)))]
    else:
      arr = k.pack([v for row in val for v in row]).reshape(4, w, nb, -1)
      z = np.zeros((4, w, arr.shape[-1]), np.uint16)
      bz = np.array([[int(row[b] is None) for row in val] for b in range(nb - 1, -1, -1)], dtype=np.uint8)
      tz, wz = [np.ones(w, np.uint8)], [np.ones(w, np.uint8)]
      for b in range(nb):
        tz.append(tz[-1] & bz[b])
        wz.append(wz[-1] & tz[-1])
      args = tuple(jnp.asarray(x) for x in (arr, z, z, bz, np.array(tz)[:nb], np.array(wz)[:nb]))
      forms = [("scan", k.jit(k.mod.bucket_reduction_scan_algorithm, bucket_num_in_window=nb), args)]
      if (k.rns and lo == 0) or ctx.thorough:
        forms.append(("unrolled", lambda *a: k.mod.bucket_reduction_algorithm(*a, bucket_num_in_window=nb), args))
    for form, fn, args in forms:
      key = f"reduce:{name}:{form}"
      with ctx.impl(key):
        out = np.asarray(fn(*args))
        for j, p in enumerate(part):
          ctx.check(k.decode(out[:, j]) == k.expect(want[j]), key, occupied=p)
      ctx.cover(states=w, transitions=w * (nb - 1), traces=w)
      ctx.outcome(key)
  if k.twisted:
    # sums over the parallel windows
    for par in (1, 2, 3):
      vals = [NS[0], NS[0], 0, NS[1], -NS[0] % r, NS[2]][: 2 * par] if par < 3 else [NS[0], 0, NS[0], NS[1], NS[3], -NS[1] % r]
      with ctx.impl(f"parallel sum:{name}"):
        arr = k.pack(vals)
        out = np.asarray(k.jit(k.mod.batch_window_summation_algorithm_twisted, point_parallel=par)(
            jnp.asarray(np.broadcast_to(k.pack([0]), (4, 2, arr.shape[-1]))), jnp.asarray(arr)))
        for j in range(2):
          ctx.check(k.decode(out[:, j]) == k.expect(sum(vals[j::2]) % r), f"parallel sum:{name}", par=par, window=j)
      ctx.cover(states=2, transitions=par, traces=2)
  ctx.bound(buckets=nb)


def merge(ctx, name):
  """Every pattern of empty windows, window widths 1..3."""
  import jax.numpy as jnp
  k = Kind(name)
  np, r = k.np, k.ec.R
  wn = 4 if ctx.quick else 6
  for c in ((1, 3) if ctx.quick else (1, 2, 3, 4)):
    for p in itertools.product((0, 1), repeat=wn):
      vals = [NS[i % 6] if o else None for i, o in enumerate(p)]
      if k.twisted and p[0] and p[1]:
        vals[0] = vals[1] * (1 << c) * (-1 if p[2] else 1) % r
      want = sum((v << (c * i)) for i, v in enumerate(vals) if v) % r
      arr = jnp.asarray(k.pack(vals))
      forms = [("scan", k.jit(k.mod.window_merge_scan_algorithm_twisted if k.twisted else k.mod.window_merge_scan_algorithm, slice_length=c))]
      if not k.twisted and c == 1:
        forms.append(("unrolled", lambda a: k.mod.window_merge_algorithm(a, slice_length=c)))
      for form, fn in forms:
        key = f"merge:{name}:{form}"
        with ctx.impl(key):
          got = k.decode(fn(arr))
          ctx.check(got == k.expect(want), key, occupied=p, slice_length=c)
        ctx.cover(states=1, transitions=wn * (c + 1), traces=1)
        ctx.outcome(key)
  ctx.bound(windows=wn)


class Abstract:
  """The real bucket machinery over the group Z_q0 x ... x Z_q3 instead of the curve.

  Only the group operations of the curve module are replaced. XYZZ-like addition is spoilt, like the
  real one, when an operand is the neutral element or both are equal or opposite; the twisted one is
  complete. A point is (x, y, zz, zzz) or (x, y, z, t) with the group element in the first four limbs of x.
  """
  Q = (32749, 32719, 32717, 32713)

  def __init__(self, kind):
    import jax.numpy as jnp
    self.k, self.jnp, self.calls = kind, jnp, 0
    self.limbs = 50 if kind.rns else 25
    q = kind.np.ones(self.limbs, kind.np.int32)
    q[:4] = self.Q
    self.q = jnp.asarray(q)

  def value(self, comps):
    """The integer whose limbs (residues) start with comps."""
    if not self.k.rns:
      return sum(int(c) << (16 * i) for i, c in enumerate(comps))
    return sum(int(c) * f for c, f in zip(comps, self.k.rns.f)) % self.k.rns.m

  def point(self, comps):
    v = self.value(comps)
    return [v, 1, 1, v] if self.k.twisted else [v, 0]

  def _all(self, cond):
    return self.jnp.all(cond, axis=-1, keepdims=True)

  def padd(self, a, b, *_, **__):
    self.calls += 1
    jnp, dt = self.jnp, a.dtype
    a, b = a.astype(jnp.int32), b.astype(jnp.int32)
    x = (a[0] + b[0]) % self.q
    one = jnp.ones_like(a[1]) if self.k.rns else jnp.zeros_like(a[1]).at[..., 0].set(1)
    if self.k.twisted:
      bad = ~(self._all(a[1] == one) & self._all(b[1] == one) & self._all(a[0] == a[3]) & self._all(b[0] == b[3]))
      out = jnp.stack([x, jnp.where(bad, 2 * one, one), one, x])
    else:
      bad = (self._all(a[2] == 0) | self._all(b[2] == 0) | self._all(a[0] == b[0]) | self._all(x == 0)
             | ~self._all(a[1] == 0) | ~self._all(b[1] == 0))
      out = jnp.stack([x, jnp.where(bad, one, 0 * one), one, one])
    return out.astype(dt)

  def pdul(self, a, *_, **__):
    self.calls += 1
    jnp, dt = self.jnp, a.dtype
    a = a.astype(jnp.int32)
    x = 2 * a[0] % self.q
    return (jnp.stack([x, a[1], a[2], x]) if self.k.twisted else jnp.stack([x, a[1], a[2], a[3]])).astype(dt)

  def pneg(self, a, *_, **__):
    self.calls += 1
    jnp, dt = self.jnp, a.dtype
    a = a.astype(jnp.int32)
    x = -a[0] % self.q
    return jnp.stack([x, a[1], a[2], x]).astype(dt)

  def decode(self, a):
    """(4, limbs) -> components, or 'bad'."""
    np = self.k.np
    a = np.asarray(a).astype(np.int64)
    x = a[0][:4].tolist()
    if self.k.twisted:
      ok = a[1][0] == 1 and (a[3] == a[0]).all()
    else:
      if not a[2].any():
        return [0, 0, 0, 0]
      ok = not a[1].any()
    return x if ok and not a[0][4:].any() else "bad"

  def __enter__(self):
    from jaxite.jaxite_ec import elliptic_curve as jec
    self.saved = []
    for name in dir(jec):
      fam = "rns" if self.k.rns else "lazy"
      if name.endswith("_pack") and f"_{fam}_" in name and (("twisted" in name) == self.k.twisted):
        fn = getattr(self, name[:4], None)
        if fn is None:
          continue
        real = getattr(jec, name)
        for mod in (jec, self.k.mod):
          for attr in [x for x in vars(mod) if vars(mod)[x] is real]:
            self.saved.append((mod, attr, real))
            setattr(mod, attr, fn)
    return self

  def __exit__(self, *_):
    for mod, attr, real in self.saved:
      setattr(mod, attr, real)


# components of the abstract points: no small relations
COMPS = [(1, 2, 3, 5), (12345, 6, 31000, 77), (9, 20011, 404, 3000), (7, 8, 9, 32000), (25000, 1111, 2, 999), (5, 4, 17, 6),
         (31, 29999, 16000, 1), (4096, 8191, 300, 21)]


def abstract(ctx, name, slices, lengths, pars):
  """Whole computations with the group operations replaced; a failure counts if the real ones fail, too."""
  k = Kind(name)
  r = k.ec.R
  for c in slices:
    ks = [s for s in dict.fromkeys(scalars_for(c, r)) if s < r]
    for n, par in itertools.product(lengths, pars):
      if n % par or (k.signed and c == 1):
        continue
      work = [tuple(ks[(i + (2 + i // 7) * j) % len(ks)] for j in range(n)) for i in range(len(ks))]
      if ctx.quick and c > 8:
        work = work[::3]
      work = [(r - 1,) * n, (0,) * n, (1,) + (0,) * (n - 1), (0,) * (n - 1) + (1,)] + work
      work = list(dict.fromkeys(work))
      fakes = Abstract(k)
      bad = []
      with fakes:
        k.jitted = {}
        for w, sc in enumerate(work):
          xs = [COMPS[(w + i) % len(COMPS)] for i in range(n)]
          if k.twisted and n > 1:
            xs = [xs, [xs[0]] + xs[:-1], [xs[0], [-v % q for v, q in zip(xs[0], Abstract.Q)]] + xs[2:], xs[:-1] + [(0,) * 4]][w % 4]
          want = [sum(s * x[i] for s, x in zip(sc, xs)) % Abstract.Q[i] for i in range(4)]
          try:
            got = fakes.decode(k.msm(c, par, list(sc), [fakes.point(x) for x in xs], scan=bool(w % 4) or not k.rns))
          except Exception as ex:  # pylint: disable=broad-except
            got = repr(ex)[:200]
          if got != want:
            bad.append((w, sc, got))
          ctx.cover(states=1, transitions=n + 2 ** c, traces=1)
      k.jitted = {}
      if not fakes.calls:
        ctx.outcome("group operations not found: nothing explored")
        return
      ctx.outcome((name, c, n, par))
      for w, sc, fake in bad[:3]:
        ns = [NS[(w + i) % len(NS)] * (1 + i // len(NS)) for i in range(n)]
        if k.twisted and n > 1:
          ns = [ns, [ns[0]] + ns[:-1], [ns[0], -ns[0] % r] + ns[2:], ns[:-1] + [0]][w % 4]
        key = f"msm:{name}:slice {c}:length {n}:par {par}"
        with ctx.impl(key, scalars=[hex(s) for s in sc]):
          got = k.decode(k.msm(c, par, list(sc), [k.coords(x) for x in ns], scan=bool(w % 4) or not k.rns))
          ctx.check(got == k.expect(sum(s * x for s, x in zip(sc, ns)) % r), key, scalars=[hex(s) for s in sc],
                    points=[hex(x) for x in ns], got="wrong point", abstract_result=fake)
  ctx.bound(**{name: f"slices {slices}, lengths {lengths}, parallel {pars}"})


SHARDS = {"whole": whole, "accumulate": accumulate, "reduce": reduce, "merge": merge, "abstract": abstract}
KINDS = ("lazy", "lazy twisted", "lazy twisted signed", "rns", "rns twisted")


def shards(tier):
  out = []
  quick = tier == "quick"
  for k in KINDS:
    out.append((f"accumulate@{k}", {"name": k}))
    if "signed" not in k:
      out += [(f"reduce@{k}", {"name": k}), (f"merge@{k}", {"name": k})]
  for k in ("lazy", "lazy twisted", "lazy twisted signed"):
    lim = (6 if k == "lazy" else 16) if quick else None
    out.append((f"whole@{k} 1", {"name": k, "slices": [4], "lengths": [2], "limit": lim}))
    if k != "lazy":
      out.append((f"whole@{k} 2", {"name": k, "slices": [2], "lengths": [2], "limit": lim, "par": 1}))
    if not quick:
      out.append((f"whole@{k} 3", {"name": k, "slices": [3, 5], "lengths": [1, 3], "limit": 6}))
      if k != "lazy":
        out.append((f"whole@{k} 4", {"name": k, "slices": [4], "lengths": [4], "par": 2, "limit": 8}))
  for c in ([1, 4, 5] if quick else [1, 2, 3, 4, 5, 6, 8]):
    out.append((f"whole@rns {c}", {"name": "rns", "slices": [c], "lengths": [1, 2] if quick else [1, 2, 3]}))
    out.append((f"whole@rns twisted {c}", {"name": "rns twisted", "slices": [c], "lengths": [1, 2] if quick else [1, 2, 3]}))
  for k in KINDS:
    if quick:
      pars = [1, 2, 3] if "twisted" in k else [1]
      groups = [([1, 2, 3], [1, 3, 4], pars), ([4, 5, 7], [1, 3, 4], pars), ([6, 9, 11], [1, 4], pars)]
    else:
      pars = [1, 2, 3, 4] if "twisted" in k else [1]
      groups = [(sl, [1, 2, 3, 4, 5, 6, 8, 12], pars)
                for sl in ([1, 2], [3, 4], [5, 6], [7, 8], [9, 10], [11, 12], [13], [16])]
    for sl, lengths, pars in groups:
      out.append((f"abstract@{k} {sl[0]}", {"name": k, "slices": sl, "lengths": lengths, "pars": pars}))
  out.append(("whole@rns twisted par", {"name": "rns twisted", "slices": [4], "lengths": [4], "par": 2}))
  return out
