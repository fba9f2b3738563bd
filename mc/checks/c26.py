"""Point operations of jaxite_ec compute the group law, in every coordinate system and representation."""
import itertools

PROPERTY = "C26"
RULE = (
    "the addition and doubling table of boundary multiples of the generator (and, on the twisted "
    "curve, the neutral element, equal and opposite points) x projective factors x unreduced "
    "representatives; and every sequence of operations (double, add one of three points, negate) up "
    "to the depth bound, each step fed with the previous output as it is. The result must be a valid "
    "representation of the point that affine arithmetic over Python integers gives")


class System:
  """One family of kernels."""

  def __init__(self, name):
    import numpy as np
    from jaxite.jaxite_ec import elliptic_curve as jec
    from jaxite.jaxite_ec import util
    from mc import ec
    self.name, self.ec, self.np = name, ec, np
    self.twisted = name.endswith("twisted")
    self.rns = ec.Rns(util.MODULI) if name.startswith("rns") else None
    self.limbs = 24 if name.startswith("barrett") else 25
    self.add = {"barrett": jec.padd_barrett_xyzz_pack, "lazy": jec.padd_lazy_xyzz_pack,
                "lazy twisted": jec.padd_lazy_twisted_pack, "rns": jec.padd_rns_xyzz_pack,
                "rns twisted": jec.padd_rns_twisted_pack}[name]
    self.dbl = {"barrett": jec.pdul_barrett_xyzz_pack, "lazy": jec.pdul_lazy_xyzz_pack,
                "lazy twisted": jec.pdul_lazy_twisted_pack, "rns": jec.pdul_rns_xyzz_pack,
                "rns twisted": jec.pdul_rns_twisted_pack}[name]
    self.neg = jec.pneg_lazy_twisted_pack if name == "lazy twisted" else None

  def point(self, k, lam=1, lift=0):
    """Coordinates of kG; `lift` adds multiples of p."""
    ec = self.ec
    c = ec.ext(ec.tmult(k), lam) if self.twisted else ec.xyzz(ec.mult(k), lam)
    if lift and self.name != "barrett":
      c = [v + ((lift * (7 * i + 1)) % (1 << 16)) * ec.P for i, v in enumerate(c)] if self.rns is None else [
          v + ((lift * (7 * i + 1)) % 6400) * ec.P for i, v in enumerate(c)]
    return c

  def pack(self, pts):
    f = self.rns.to if self.rns else (lambda v: self.ec.chunks(v, self.limbs))
    return self.np.stack([f([p[c] for p in pts]) for c in range(4)])

  def unpack(self, a):
    a = self.np.asarray(a)
    f = self.rns.back if self.rns else self.ec.unchunk
    # values of the residue system stand for a range around 0
    cols = [f(a[c]) for c in range(4)]
    if self.rns:
      cols = [[v - self.rns.m if v > self.rns.m // 2 else v for v in col] for col in cols]
    return list(zip(*cols))

  def decode(self, coords):
    return self.ec.from_ext(coords) if self.twisted else self.ec.from_xyzz(coords)

  def expect(self, k):
    return self.ec.tmult(k) if self.twisted else self.ec.mult(k)

  def run(self, fn, *arrs):
    size = 512 if self.rns else 64
    return self.ec.batched(fn, *arrs, axis=1, size=min(size, max(8, arrs[0].shape[1])))

  def judge(self, ctx, key, out, ks, notes):
    ok = True
    for c, k, n in zip(self.unpack(out), ks, notes):
      if self.name == "barrett" and max(c) >= self.ec.P:
        ctx.fail(key, problem="not reduced", case=n)
        return False
      got = self.decode(c)
      if got != self.expect(k):
        ctx.fail(key, problem="wrong point" if got != "bad" else "not a point", case=n, scalar=hex(k % self.ec.R))
        return False
    return ok


def table(ctx, name):
  s = System(name)
  ec = s.ec
  r = ec.R
  ks = [1, 2, 3, 4, 5, 7, 8, r - 1, r - 2, r - 4, (r + 1) // 2, (r - 1) // 2, 1 << 128, r // 3]
  if ctx.quick:
    ks = ks[:3] + ks[4:6] + ks[7:11] + ks[-2:]
  if s.twisted:
    ks = [0] + ks
  factors = ec.lams(4 if ctx.quick else 10)
  reps = [(lam, lift) for lam in factors for lift in ((0,) if name == "barrett" else (0, 1, 65535))]
  reps = reps if ctx.thorough else reps[::2] + reps[1:2]
  cases = []
  for (i, a), (j, b) in itertools.product(enumerate(ks), enumerate(ks)):
    if not s.twisted and (a == b or (a + b) % r == 0):
      continue
    for t in range(len(reps) if ctx.thorough else 2):
      cases.append((a, reps[(t + i + 2 * j) % len(reps)], b, reps[(3 * t + 2 * i + j + 1) % len(reps)]))
  if s.rns:  # many representations: some intermediate residue is then zero somewhere
    for t, lam in enumerate(ec.lams(2500 if ctx.quick else 20000)):
      a, b = ks[-1 - t % 3], ks[t % 3 + (2 if s.twisted else 0)]
      if s.twisted or (a != b and (a + b) % r):
        cases.append((a, (lam, 0), b, (ec.lams(7)[t % 7], t % 2)))
  A = s.pack([s.point(a, *ra) for a, ra, _, _ in cases])
  B = s.pack([s.point(b, *rb) for _, _, b, rb in cases])
  with ctx.impl(f"add:{name}"):
    s.judge(ctx, f"add:{name}", s.run(s.add, A, B), [a + b for a, _, b, _ in cases], cases)
  ctx.cover(states=len(cases), transitions=len(cases), traces=len(cases))
  dc = [(a, rep) for a in ks for rep in reps]
  if s.rns:
    dc += [(ks[1 + t % 5], (lam, 0)) for t, lam in enumerate(ec.lams(2500 if ctx.quick else 20000))]
  with ctx.impl(f"double:{name}"):
    D = s.pack([s.point(a, *rep) for a, rep in dc])
    s.judge(ctx, f"double:{name}", s.run(s.dbl, D), [2 * a for a, _ in dc], dc)
  ctx.cover(states=len(dc), transitions=len(dc), traces=len(dc))
  if s.neg:
    with ctx.impl(f"negate:{name}"):
      s.judge(ctx, f"negate:{name}", s.run(s.neg, D), [-a for a, _ in dc], dc)
      # a negated point is an operand
      N = s.run(s.neg, D)
      back = s.run(s.add, N, s.np.roll(D, 1, axis=1))
      s.judge(ctx, f"negate then add:{name}", back, [dc[i - 1][0] - dc[i][0] for i in range(len(dc))], dc)
      s.judge(ctx, f"negate then double:{name}", s.run(s.dbl, N), [-2 * a for a, _ in dc], dc)
    ctx.cover(states=len(dc), transitions=4 * len(dc), traces=3 * len(dc))
  ctx.outcome(name, len(cases))
  ctx.bound(**{name + "_cases": len(cases)})


def chains(ctx, name):
  """Every sequence of operations up to the depth, batched by depth."""
  s = System(name)
  ec = s.ec
  r = ec.R
  ops = {"D": None, "+G": 1, "+5G": 5, "-7G": r - 7}
  if s.twisted:
    ops["+0"] = 0
  if s.neg:
    ops["N"] = None
  depth = (4 if len(ops) < 5 else 3) + (0 if ctx.quick else 1)
  fixed = {o: s.pack([s.point(k, ec.lams(4)[i % 4])]) for i, (o, k) in enumerate(ops.items()) if k is not None}
  start = [(1, 0), (3, 2)] if not s.twisted else [(1, 0), (0, 1), (r - 5, 2)]
  level = [((f"{k}G/{lam}",), k) for k, lam in start]
  cur = s.pack([s.point(k, ec.lams(4)[lam]) for k, lam in start])
  for d in range(depth):
    nxt, arrs = [], []
    for o, b in ops.items():
      keep = [i for i, (_, k) in enumerate(level)
              if s.twisted or (k % r and (b is None or (k - b) % r and (k + b) % r))]
      if not keep:
        continue
      src = s.np.take(cur, keep, axis=1)
      with ctx.impl(f"chain:{name}:{o}"):
        if o == "D":
          out, ks = s.run(s.dbl, src), [2 * level[i][1] for i in keep]
        elif o == "N":
          out, ks = s.run(s.neg, src), [-level[i][1] for i in keep]
        else:
          out = s.run(s.add, src, s.np.repeat(fixed[o], len(keep), axis=1)) if (d + len(o)) % 2 else s.run(
              s.add, s.np.repeat(fixed[o], len(keep), axis=1), src)
          ks = [level[i][1] + b for i in keep]
        notes = [level[i][0] + (o,) for i in keep]
        if not s.judge(ctx, f"chain:{name}:{o}", out, ks, notes):
          return
        nxt += list(zip(notes, [k % r for k in ks]))
        arrs.append(out)
        ctx.cover(states=len(keep), transitions=len(keep), traces=len(keep))
    level, cur = nxt, s.np.concatenate(arrs, axis=1)
  ctx.bound(**{name + "_depth": depth})
  ctx.outcome((name, len(level)))


def forms(ctx, name):
  """The same operation in its other calling forms: separate coordinates, batch first, any batch size, jit."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_ec import elliptic_curve as jec
  from jaxite.jaxite_ec import util
  s = System(name)
  for b in ((1, 3) if ctx.quick else (1, 2, 3, 5)):
    pa = [s.point(i + 1, s.ec.lams(6)[i]) for i in range(b)]
    pb = [s.point(i + 11, s.ec.lams(6)[5 - i]) for i in range(b)]
    A, B = jnp.asarray(s.pack(pa)), jnp.asarray(s.pack(pb))
    ks, dk = [2 * i + 12 for i in range(b)], [2 * i + 2 for i in range(b)]
    key = f"form:{name}:{b}"
    with ctx.impl(key):
      s.judge(ctx, key + ":add", s.add(A, B), ks, range(b))
      s.judge(ctx, key + ":double", s.dbl(A), dk, range(b))
      if b == 3:
        s.judge(ctx, key + ":jit add", jax.jit(s.add)(A, B), ks, range(b))
        s.judge(ctx, key + ":jit double", jax.jit(s.dbl)(A), dk, range(b))
      if name == "barrett":
        s.judge(ctx, key + ":split add", jec.padd_barret_xyzz(*A, *B), ks, range(b))
        s.judge(ctx, key + ":split double", jec.pdul_barret_xyzz(*A), dk, range(b))
        At, Bt = A.transpose(1, 0, 2), B.transpose(1, 0, 2)
        s.judge(ctx, key + ":batch first add", jec.padd_barrett_xyzz_pack_batch_first(At, Bt), ks, range(b))
        s.judge(ctx, key + ":batch first double", jec.pdul_barrett_xyzz_pack_batch_first(At), dk, range(b))
        t = jec.padd_barrett_xyzz_pack_batch_first(At, Bt, transpose=(1, 0, 2))
        s.judge(ctx, key + ":batch first, transposed", np.asarray(t).transpose(1, 0, 2), ks, range(b))
        t = jec.pdul_barrett_xyzz_pack_batch_first(At, transpose=(1, 0, 2))
        s.judge(ctx, key + ":batch first double, transposed", np.asarray(t).transpose(1, 0, 2), dk, range(b))
      if name == "lazy":
        s.judge(ctx, key + ":split add", jec.padd_lazy_xyzz(*A, *B), ks, range(b))
        s.judge(ctx, key + ":split double", jec.pdul_lazy_xyzz(*A), dk, range(b))
      if name == "lazy twisted":
        s.judge(ctx, key + ":split add", jec.padd_lazy_twisted(*A, *B), ks, range(b))
        s.judge(ctx, key + ":split double", jec.pdul_lazy_twisted(*A), dk, range(b))
        s.judge(ctx, key + ":split negate", jec.pneg_lazy_twisted(*A), [-i - 1 for i in range(b)], range(b))
      if name == "rns":
        s.judge(ctx, key + ":split double", jec.pdul_rns_xyzz(*A), dk, range(b))
      if name == "rns twisted":
        s.judge(ctx, key + ":split double", jec.pdul_rns_twisted(*A), dk, range(b))
        z = np.asarray(jec.rns_twist_zero())
        s.judge(ctx, key + ":zero", z[:, None], [0], ["zero"])
        s.judge(ctx, key + ":add zero", s.add(A, jnp.repeat(jnp.asarray(z)[:, None], b, axis=1)), [i + 1 for i in range(b)], range(b))
    ctx.cover(states=b, transitions=6, traces=6 * b)
    ctx.outcome((name, b))


SHARDS = {"table": table, "chains": chains, "forms": forms}


def shards(tier):
  names = ("barrett", "lazy", "lazy twisted", "rns", "rns twisted")
  return ([(f"table@{n}", {"name": n}) for n in names] + [(f"chains@{n}", {"name": n}) for n in names] + [(f"forms@{n}", {"name": n}) for n in names])
