"""Kernel objects: results depend only on the latest set-up and the operands, also through jit and pytree round trips."""
import itertools

PROPERTY = "C23"
RULE = (
    "a system of two kernel objects of one class; actions: set either object up for one of three or four "
    "configurations (pairs differ only in the row/column split or partitions, only in the moduli, only in their order), replace one by a "
    "pytree round trip of the other, run an object on operands eagerly or as an argument of one shared "
    "jitted function. Every action sequence up to the depth bound is executed; after every action the "
    "objects in it must give exactly what a fresh object of their latest configuration gives, which equals "
    "what it gives in a process that never saw another configuration. Also every "
    "container type through flatten and unflatten")


class K:
  """One kernel class: configurations, set-up and use."""
  jit = True

  def make(self):
    raise NotImplementedError

  def setup(self, k, cfg):
    raise NotImplementedError

  def operands(self, cfg):
    raise NotImplementedError

  def use(self, k, ops):
    raise NotImplementedError


N = 8


def _arr(shape, mods, salt):
  """Deterministic residues, with the extremes among them."""
  import numpy as np
  out = np.zeros(shape + (len(mods),), dtype=np.uint64)
  size = int(np.prod(shape))
  for j, m in enumerate(mods):
    v = [(salt * 7919 + i * i * 104729 + i * 31 * (j + 1)) % m for i in range(size)]
    v[0], v[1 % size] = m - 1, 0
    out[..., j] = np.array(v, dtype=np.uint64).reshape(shape)
  return out.astype(np.uint32)


def _kernels():
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_ckks import add, barrett, basis_conversion, blind_rotate, conjugate, key_gen, key_switching, mul, ntt, rescale, types
  from mc import ckks as ck
  from mc.checks import c21

  # pairs that differ in one thing only: the split (or partitions), the order, the moduli, the number of limbs
  base = c21.chain(N, [28, 30, 31, 31, 26, 29])
  a3, b3 = [base[0], base[1], base[2]], [base[0], base[4], base[2]]
  p3 = [base[2], base[0], base[1]]
  two = [base[3], base[5]]
  mod = lambda q: jnp.asarray(q, dtype=jnp.uint32)
  ct = lambda d, q: types.Ciphertext(jnp.asarray(d), mod(q))
  out = {}

  class Ntt(K):
    cfgs = [(a3, 2, 4), (a3, 4, 2), (b3, 4, 2), (p3, 4, 2)]
    make = lambda s: ntt.NTTBarrett()
    setup = lambda s, k, c: k.precompute_constants(list(c[0]), c[1], c[2])
    operands = lambda s, c: (jnp.asarray(_arr((2, c[1], c[2]), c[0], 1)),)
    use = lambda s, k, o: (k.ntt(o[0]), k.intt(o[0]))
  out["ntt"] = Ntt()

  class Bc(K):
    cfgs = [(a3, [([0, 1], [2]), ([2], [0, 1])]), (b3, [([0, 1], [2]), ([2], [0, 1])]), (a3, [([2], [0, 1]), ([0, 1], [2])]), (p3, [([0, 1], [2]), ([2], [0, 1])])]
    make = lambda s: basis_conversion.BasisConversionBarrett()
    setup = lambda s, k, c: k.precompute_constants(list(c[0]), c[1])
    operands = lambda s, c: tuple(jnp.asarray(_arr((2, N), [c[0][i] for i in p[0]], 2)) for p in c[1])
    use = lambda s, k, o: (k.basis_change(o[0], 0), k.basis_change(o[1], 1), k.basis_change(o[0], control_index=0))
  out["basis conversion"] = Bc()

  class Rs(K):
    cfgs = [(a3, 1, 2, 4), (a3, 1, 4, 2), (b3, 1, 4, 2), (a3, 2, 4, 2)]
    make = lambda s: rescale.Rescale()
    setup = lambda s, k, c: k.precompute_constants(list(c[0]), *c[1:])
    operands = lambda s, c: (jnp.asarray(_arr((2, N), c[0], 3)), mod(c[0]))

    def use(s, k, o):
      x = types.Ciphertext(o[0], o[1])
      k.rescale(x)
      return x.data, x.moduli
  out["rescale"] = Rs()

  class Add(K):
    cfgs = [a3, b3, p3, two]
    make = lambda s: None
    operands = lambda s, c: (jnp.asarray(_arr((2, N), c, 4)), jnp.asarray(_arr((2, N), c, 5)))
    use = lambda s, k, o: (k.add(*o),)

  class AddB(Add):
    setup = lambda s, k, c: add.AddModularBarrett(barrett.precompute_barrett_constants(list(c)))

  class AddS(Add):
    setup = lambda s, k, c: add.AddModularSubtract(list(c))
  out["add barrett"], out["add subtract"] = AddB(), AddS()

  class Mp(K):
    jit = False
    cfgs = [a3, b3, p3, two]
    make = lambda s: None
    setup = lambda s, k, c: mul.MulPlaintextCiphertextBarrett(barrett.precompute_barrett_constants(list(c)))
    operands = lambda s, c: (ct(_arr((2, N), c, 6), c), types.Plaintext(jnp.asarray(_arr((N,), c, 7)), mod(c)))

    def use(s, k, o):
      r = k.mul(*o)
      return r.data, r.moduli
  out["plaintext product"] = Mp()

  s1, s2 = c21.KEYS8[0], c21.KEYS8[3]
  noise = (3, -5, 4, 0, -1, 5, 2, -3)

  class Ml(K):
    cfgs = [(a3, two, 2, 2, 4, 1), (a3, two, 1, 4, 2, 1), (b3, two, 1, 4, 2, 1)]
    make = lambda s: mul.Mul()
    setup = lambda s, k, c: k.precompute_constants(list(c[0]), list(c[1]), c[2], c[3], c[4], composite_degree=c[5])

    def operands(s, c):
      q = c[0][:-c[5]]
      e = key_gen.gen_evaluation_key(c21.secret(s1, q), list(q), list(c[1]), c[2], random_source=ck.Script(gauss=noise, salt=3))
      return (ct(_arr((2, N), q, 8), q), ct(_arr((2, N), q, 9), q),
              mul.EvaluationKeys(jnp.asarray(np.asarray(e.a)), jnp.asarray(np.asarray(e.b)), jnp.asarray(np.asarray(e.moduli))))

    def use(s, k, o):
      t = k.tensor_multiply(o[0], o[1])
      r = k.relinearize(t, o[2])
      return t.data, t.moduli, r.data, r.moduli
  out["product"] = Ml()

  class Ks(K):
    jit = False
    cfgs = [(a3, two, 2, 2, 4), (a3, two, 3, 4, 2), (b3, two, 3, 4, 2)]
    make = lambda s: key_switching.KeySwitcher()
    setup = lambda s, k, c: k.precompute_constants(list(c[0]), list(c[1]), *c[2:])

    def operands(s, c):
      q, p = c[0], c[1]
      bc = basis_conversion.BasisConversionBarrett()
      bc.precompute_constants(q + p, c21.bc_pairs(len(q), len(p), c[2]))
      mk = mul.MulPlaintextCiphertextBarrett(barrett.precompute_barrett_constants(q + p))
      e = key_gen.gen_key_switching_key(c21.secret(s1, q), c21.secret(s2, q), list(q), list(p), c[2], random_source=ck.Script(gauss=noise, salt=4))
      rk = rescale.Rescale()
      rk.precompute_constants(q + p, len(p), c[3], c[4])
      return ct(_arr((2, N), q, 10), q), e, mod(p), bc, mk, rk

    def use(s, k, o):
      r = k.key_switch(o[0], o[1], o[2], o[3], o[4], 0)
      return r.data, r.moduli
  out["key switch"] = Ks()

  class Cj(Ks):
    make = lambda s: conjugate.Conjugation()

    def use(s, k, o):
      r = k.conjugate(o[0], o[1], o[2], o[3], o[4], o[5], 0)
      return r.data, r.moduli
  out["conjugate"] = Cj()

  class Br(K):
    jit = False
    cfgs = [(a3, two, 1, 2, 4), (a3, two, 1, 4, 2), (b3, two, 1, 4, 2)]
    make = lambda s: blind_rotate.BlindRotation()
    setup = lambda s, k, c: k.precompute_constants(list(c[0]), list(c[1]), *c[2:], num_rescales=len(c[1]))

    def operands(s, c):
      q, p = c[0], c[1]
      hk = key_gen.gen_hmuxrot_key(c21.secret(s1, q), 1, 1, list(q), list(p), random_source=ck.Script(gauss=noise, salt=5))
      return ct(_arr((2, N), q, 11), q), hk, mod(p)

    def use(s, k, o):
      r = k.hmuxrot(o[0], o[1], 1, o[2])
      return r.data, r.moduli
  out["blind rotation"] = Br()
  return out


def _alone(name, cfg, path):
  """What a fresh object gives for one configuration in a process that never saw another one."""
  import pickle
  import numpy as np
  kk = _kernels()[name]
  c = kk.cfgs[cfg]
  k = kk.make()
  k = kk.setup(k, c) or k
  with open(path, "wb") as f:
    pickle.dump([np.asarray(x) for x in kk.use(k, kk.operands(c))], f)


def _spawn(name, cfg, path):
  import subprocess
  import sys
  from mc import core
  code = (f"import sys; sys.path.insert(0, {core.VERIF!r}); sys.dont_write_bytecode = True\n"
          f"from mc import core; core.setup_imports()\n"
          f"from mc.checks import c23; c23._alone({name!r}, {cfg}, {path!r})")
  return subprocess.Popen([sys.executable, "-c", code], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def machine(ctx, name, part=0, parts=1):
  import os
  import pickle
  import tempfile
  tmp = tempfile.mkdtemp(dir=os.getcwd())
  alone = {}
  for c in range(4):
    if c % parts == part % parts:
      path = os.path.join(tmp, f"{c}.pickle")
      alone[c] = path, _spawn(name, c, path)
  try:
    _machine(ctx, name, part, parts, alone)
  finally:
    for _, p in alone.values():
      p.kill()
      p.wait()


def _machine(ctx, name, part, parts, alone):
  import os
  import pickle
  import jax
  import numpy as np
  kk = _kernels()[name]
  nc = len(kk.cfgs)
  read = lambda t: [np.asarray(x) for x in t]
  jitted = jax.jit(lambda k, o: kk.use(k, o)) if kk.jit else None
  trip = lambda k: jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(k), jax.tree_util.tree_leaves(k))

  def setup(k, c):
    return kk.setup(k, kk.cfgs[c]) or k  # kernels set up by their constructor return a new one

  ops, want = [], []
  with ctx.impl(f"kernel:{name}:fresh"):
    for c in range(nc):
      ops.append(kk.operands(kk.cfgs[c]))
      want.append(read(kk.use(setup(kk.make(), c), ops[c])))
  if len(want) != nc:
    return
  # no set-up before it may show in a fresh object: the same in a process of its own
  for c, (path, proc) in alone.items():
    if c >= nc:
      continue
    proc.wait()
    if not ctx.check(os.path.exists(path), f"kernel:{name}:alone", problem="failed in a process of its own", configuration=c):
      continue
    with open(path, "rb") as f:
      solo = pickle.load(f)
    ctx.check(len(solo) == len(want[c]) and all(np.array_equal(g, w) for g, w in zip(solo, want[c])), f"kernel:{name}:alone",
              problem="a fresh object depends on what was set up before", configuration=c)
    ctx.cover(states=1, transitions=1, traces=1)
  frozen = [jax.tree_util.tree_map(lambda x: np.array(x) if hasattr(x, "shape") else x, o) for o in ops]

  acts = [("set", s, c) for s in (0, 1) for c in range(nc)] + [("copy", 0, 1), ("copy", 1, 0), ("run", 0, 0)]
  if kk.jit:
    acts.append(("jit", 0, 0))
  depth = 3 if ctx.quick else 4
  seqs = []
  for d in range(1, depth + 1):
    for seq in itertools.product(acts, repeat=d):
      # the first action sets object 0 up (the objects are interchangeable); only sequences whose last
      # action is not a run are extended by a run of both objects, so runs at the end are redundant
      if seq[0][0] != "set" or seq[0][1] != 0 or seq[-1][0] in ("run", "jit"):
        continue
      if any(a == b for a, b in zip(seq, seq[1:])):
        continue
      seqs.append(seq)
  for si, seq in enumerate(seqs):
    if si % parts != part:
      continue
    key = f"kernel:{name}:" + "-".join(f"{a}{s}{c}" for a, s, c in seq)
    with ctx.impl(f"kernel:{name}", sequence=str(seq)):
      obj = [kk.make(), kk.make()]
      cfg = [None, None]
      for a, s, c in seq:
        if a == "set":
          obj[s] = setup(obj[s], c)
          cfg[s] = c
        elif a == "copy":
          if cfg[s] is None:
            continue
          obj[c], cfg[c] = trip(obj[s]), cfg[s]
        elif cfg[s] is not None:
          f = jitted if a == "jit" else kk.use
          got = read(f(obj[s], ops[cfg[s]]))
          ctx.check(all(np.array_equal(g, w) and g.dtype == w.dtype for g, w in zip(got, want[cfg[s]])), f"kernel:{name}:{a}", sequence=str(seq),
                    configuration=cfg[s])
      for s in (0, 1):
        if cfg[s] is not None:
          for a, f in (("run", kk.use),) + ((("jit", jitted),) if kk.jit else ()):
            got = read(f(obj[s], ops[cfg[s]]))
            ctx.check(all(np.array_equal(g, w) and g.dtype == w.dtype for g, w in zip(got, want[cfg[s]])), f"kernel:{name}:{a}", sequence=str(seq),
                      configuration=cfg[s], object=s)
    ctx.cover(states=1, transitions=len(seq) + 2, traces=1)
  for o, f in zip(ops, frozen):
    la, lb = jax.tree_util.tree_leaves(o), jax.tree_util.tree_leaves(f)
    ctx.check(all(np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(la, lb) if hasattr(x, "shape")), f"kernel:{name}:operands kept")
  ctx.outcome(name, len(seqs))
  ctx.bound(depth=depth, configurations=nc, objects=2)


def containers(ctx):
  """Ciphertexts, plaintexts and keys keep every field through flatten/unflatten and jit."""
  import dataclasses
  import jax
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_ckks import barrett, mul, ntt, types
  from mc.checks import c21
  n = N
  q = c21.chain(n, [28, 30, 31])

  def fields(x, path=""):
    """Leaves by field name."""
    if dataclasses.is_dataclass(x):
      return {k: v for f in dataclasses.fields(x) for k, v in fields(getattr(x, f.name), f"{path}.{f.name}").items()}
    if isinstance(x, (list, tuple)):
      return {k: v for i, e in enumerate(x) for k, v in fields(e, f"{path}[{i}]").items()}
    return {path: np.asarray(x)}

  m = lambda i: jnp.asarray(_arr((2, n), q, i))
  mo = jnp.asarray(q, dtype=jnp.uint32)
  ct = lambda i: types.Ciphertext(m(i), mo)
  hk = lambda i: types.HMuxRotKey(ct(i), ct(i + 1))
  k = ntt.NTTBarrett()
  k.precompute_constants(q, 2, 4)
  objs = {"ciphertext": ct(1), "plaintext": types.Plaintext(m(2)[0], mo), "hmuxrot key": hk(3),
          "mux rotation key": types.MuxRotationKey([(hk(5), hk(7)), (hk(9), hk(11))]),
          "evaluation keys": mul.EvaluationKeys(m(13), m(14), mo), "barrett": barrett.precompute_barrett_constants(q),
          "ntt constants": k.constants}
  for name, o in objs.items():
    with ctx.impl(f"container:{name}"):
      want = fields(o)
      leaves, tree = jax.tree_util.tree_flatten(o)
      for how, back in (("unflatten", jax.tree_util.tree_unflatten(tree, leaves)), ("map", jax.tree_util.tree_map(lambda x: x + 0, o)),
                        ("jit", jax.jit(lambda x: jax.tree_util.tree_map(lambda v: v + 0, x))(o)),
                        ("scan", jax.lax.scan(lambda c, _: (c, None), o, None, length=2)[0])):
        got = fields(back)
        ctx.check(type(back) is type(o) and got.keys() == want.keys() and all(np.array_equal(got[f], want[f]) for f in want),
                  f"container:{name}:{how}")
        ctx.cover(states=1, transitions=1, traces=1)
  # slices of constants
  for name in ("barrett", "ntt constants"):
    o = objs[name]
    for lo, hi in itertools.combinations(range(len(q) + 1), 2):
      with ctx.impl(f"container:{name}:slice"):
        sl = o.slice(slice(lo, hi)) if name == "barrett" else o.slice_moduli(slice(lo, hi))
        if name == "barrett":
          ref = barrett.precompute_barrett_constants(q[lo:hi])
        else:
          kk = ntt.NTTBarrett()
          kk.precompute_constants(q[lo:hi], 2, 4)
          ref = kk.constants
        a, b = fields(sl), fields(ref)
        ctx.check(a.keys() == b.keys() and all(np.array_equal(a[f], b[f]) for f in a), f"container:{name}:slice", part=(lo, hi))
      ctx.cover(states=1, transitions=1, traces=1)
  ctx.outcome("containers")


SHARDS = {"machine": machine, "containers": containers}
NAMES = ("ntt", "basis conversion", "rescale", "add barrett", "add subtract", "plaintext product", "product", "key switch", "conjugate",
         "blind rotation")


def shards(tier):
  out = [("containers", {})]
  heavy = {"product": 3, "conjugate": 3, "blind rotation": 3, "key switch": 2, "rescale": 2}
  for n in NAMES:
    parts = heavy.get(n, 1) * (1 if tier == "quick" else 8)
    out += [(f"machine@{n} {i}", {"name": n, "part": i, "parts": parts}) for i in range(parts)]
  return out
