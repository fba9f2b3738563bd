"""Boolean gates and look-up tables compute their truth tables."""
import itertools

PROPERTY = "C01"
RULE = (
    "every gate x every input x every source of each operand (fresh encryption, "
    "constant, negation, gate output), and every 1-, 2- and 3-input truth table x "
    "every input, on real keys; each result is decrypted by the library and by an "
    "independent phase computation (message must be exactly 0/1, noise bounded)")
ASSUMPTIONS = [
    "noise samples are those of the seeded sources (std 1 to 2^14); the noise "
    "margin of 2^24 out of 2^27 leaves 1/8 of the decoding radius",
]

GATES = {
    "and_": lambda x, y: x and y,
    "andny_": lambda x, y: (not x) and y,
    "andyn_": lambda x, y: x and (not y),
    "or_": lambda x, y: x or y,
    "orny_": lambda x, y: (not x) or y,
    "oryn_": lambda x, y: x or (not y),
    "nand_": lambda x, y: not (x and y),
    "nor_": lambda x, y: not (x or y),
    "xor_": lambda x, y: x != y,
    "xnor_": lambda x, y: x == y,
}

# name: (lwe dim, rlwe dim, N, bs (log base, levels), ks, lwe std, rlwe std, limit)
PARAM_SETS = {
    "test": None,
    "small": (4, 1, 128, (4, 8), (4, 8), 1, 1, 2**24),
    "k2": (6, 2, 256, (4, 6), (4, 5), 2**14, 256, 2**25),
    "unroll": (16, 1, 256, (4, 8), (4, 8), 1, 1, 2**24),
    "wide": (2, 1, 1024, (8, 4), (2, 12), 1, 1, 2**24),
    "k3": (2, 3, 128, (4, 7), (8, 3), 1, 1, 2**24),
    "dim20": (20, 2, 256, (8, 3), (4, 6), 4, 4, 2**25),
}


def world(name, seed):
  from jaxite.jaxite_bool import bool_params as bp
  from jaxite.jaxite_bool import jaxite_bool as jb
  from jaxite.jaxite_cggi import decomposition
  from jaxite.jaxite_cggi import parameters
  from jaxite.jaxite_cggi import random_source

  spec = PARAM_SETS[name]
  if spec is None:
    p = bp.get_params_for_test()
    lwe_rng, rlwe_rng = bp.get_rng_for_test(seed), bp.get_rng_for_test(seed + 1)
    limit = 2**24
  else:
    n, k, deg, bs, ks, ls, rs, limit = spec
    p = bp.Parameters(
        parameters.SchemeParameters(
            lwe_dimension=n, plaintext_modulus=2**32, rlwe_dimension=k,
            polynomial_modulus_degree=deg),
        decomposition.DecompositionParameters(*ks),
        decomposition.DecompositionParameters(*bs))
    lwe_rng = random_source.PseudorandomSource(normal_std=ls, seed=seed)
    rlwe_rng = random_source.PseudorandomSource(normal_std=rs, seed=seed + 1)
  cks = jb.ClientKeySet(p, lwe_rng, rlwe_rng)
  sks = jb.ServerKeySet(cks, p, lwe_rng, rlwe_rng)
  return World(jb, p, cks, sks, lwe_rng, limit)


class World:

  def __init__(self, jb, p, cks, sks, rng, limit):
    self.jb, self.p, self.cks, self.sks, self.rng = jb, p, cks, sks, rng
    self.limit = limit

  def enc(self, b):
    return self.jb.encrypt(b, self.cks, self.rng)

  def noise(self, ct, bit):
    import numpy as np
    from mc import ref
    ph = ref.lwe_phase(ct, np.asarray(self.cks.lwe_sk.key_data))
    return ref.centered(ph - (int(bit) << 28), 1 << 32)

  def verify(self, ctx, key, ct, bit, limit=None, **detail):
    """Library decryption and independent decoding both give `bit`."""
    import numpy as np
    if np.asarray(ct).shape != (self.p.scheme_params.lwe_dimension + 1,):
      return ctx.check(False, key, problem="shape", shape=np.asarray(ct).shape)
    e = self.noise(ct, bit)
    ok = ctx.check(abs(e) < (limit or self.limit), key,
                   problem="phase of the result is not that of the right bit",
                   expected_bit=bool(bit), offset_from_expected=e, **detail)
    with ctx.impl(key + ":decrypt", **detail):
      d = self.jb.decrypt(ct, self.cks)
      ok = ctx.check(bool(d) == bool(bit), key + ":decrypt",
                     expected=bool(bit), got=bool(d), **detail) and ok
    return ok

  def operands(self, bit):
    """Ciphertexts of `bit` from every kind of producer."""
    jb, p = self.jb, self.p
    t, f = self.enc(True), self.enc(False)
    return {
        "fresh": self.enc(bit),
        "const": jb.constant(bit, p),
        "not": jb.not_(self.enc(not bit), p),
        "gate": (jb.or_ if bit else jb.and_)(t, f, self.sks, p),
    }


def gates(ctx, pset, seed=0):
  w = world(pset, 100 + 10 * seed + ctx.seed)
  jb, p = w.jb, w.p
  ops = {b: w.operands(b) for b in (False, True)}
  for b in ops:
    for s, ct in ops[b].items():
      w.verify(ctx, f"{pset}:operand:{s}:{b}", ct, b)
      ctx.cover(states=1, transitions=1, traces=1)
      with ctx.impl(f"{pset}:not:{s}:{b}"):
        w.verify(ctx, f"{pset}:not:{s}:{b}", jb.not_(ct, p), not b)
  srcs = list(itertools.product(ops[True], repeat=2))
  if ctx.quick and pset != "small":
    srcs = [("fresh", "gate"), ("gate", "not"), ("const", "fresh"), ("gate", "const")][:1 if pset == "wide" else 4]
  for g, fn in GATES.items():
    for (sx, sy), x, y in itertools.product(srcs, (False, True), (False, True)):
      key = f"{pset}:{g}:{sx}{int(x)}:{sy}{int(y)}"
      with ctx.impl(key):
        r = getattr(jb, g)(ops[x][sx], ops[y][sy], w.sks, p)
        w.verify(ctx, key, r, fn(x, y))
      ctx.cover(states=1, transitions=1, traces=1)
      ctx.outcome((g, x, y, fn(x, y)))
  src3 = (itertools.product(ops[True], repeat=3) if ctx.thorough and pset == "small"
          else [("fresh",) * 3, ("gate",) * 3, ("const", "gate", "not"),
                ("not", "const", "gate"), ("const", "const", "fresh")])
  for ss, v1, v0, c in itertools.product(list(src3), *[(False, True)] * 3):
    key = f"{pset}:cmux:{ss}:{int(v1)}{int(v0)}{int(c)}"
    with ctx.impl(key):
      r = jb.cmux_(ops[v1][ss[0]], ops[v0][ss[1]], ops[c][ss[2]], w.sks, p)
      w.verify(ctx, key, r, v1 if c else v0)
    ctx.cover(states=1, transitions=1, traces=1)
    ctx.outcome(("cmux", v1, v0, c))
  for tt, b, s in itertools.product(range(4), (False, True), ops[True]):
    key = f"{pset}:lut1:{tt}:{s}{int(b)}"
    with ctx.impl(key):
      r = jb.lut1(ops[b][s], tt, w.sks, p)
      w.verify(ctx, key, r, (tt >> int(b)) & 1)
    ctx.cover(states=1, transitions=1, traces=1)
    ctx.outcome(("lut1", tt, b))
  for tt in (-1, 4, 5, 255):
    ctx.raises(f"{pset}:lut1:illegal:{tt}", ValueError,
               lambda tt=tt: jb.lut1(ops[True]["fresh"], tt, w.sks, p))
    ctx.cover(states=1, transitions=1)
  for tt, a, b in itertools.product(range(16), (0, 1), (0, 1)):
    key = f"{pset}:lut2:{tt}:a{a}b{b}"
    with ctx.impl(key):
      r = jb.lut2(ops[bool(a)]["fresh"], ops[bool(b)]["gate"], tt, w.sks, p)
      w.verify(ctx, key, r, (tt >> (2 * b + a)) & 1)
    ctx.cover(states=1, transitions=1, traces=1)
    ctx.outcome(("lut2", tt, a, b))
  ctx.sample({"params": pset, "gate": "cmux_", "v1": 1, "v0": 0, "ctrl": 1})


def lut3(ctx, pset, part, parts, seed=0, step=1):
  w = world(pset, 500 + 10 * seed + ctx.seed)
  jb, p = w.jb, w.p
  ops = {b: w.operands(b) for b in (False, True)}
  src = [("fresh", "gate", "fresh"), ("gate", "not", "const")]
  # cached 2-input tables of the same number must not shadow 3-input ones, nor
  # the other way round: interleave them.
  for tt in range(part, 256, parts * step):
    for c, b, a in itertools.product((0, 1), repeat=3):
      sa, sb, sc = src[(tt + a + b + c) % 2]
      key = f"{pset}:lut3:{tt}:a{a}b{b}c{c}"
      with ctx.impl(key):
        r = jb.lut3(ops[bool(a)][sa], ops[bool(b)][sb], ops[bool(c)][sc], tt,
                    w.sks, p)
        w.verify(ctx, key, r, (tt >> (4 * c + 2 * b + a)) & 1)
      ctx.cover(states=1, transitions=1, traces=1)
      ctx.outcome(("lut3", tt, a, b, c))
    if tt < 16:
      for b, a in itertools.product((0, 1), repeat=2):
        key = f"{pset}:lut2after3:{tt}:a{a}b{b}"
        with ctx.impl(key):
          r = jb.lut2(ops[bool(a)]["gate"], ops[bool(b)]["fresh"], tt, w.sks, p)
          w.verify(ctx, key, r, (tt >> (2 * b + a)) & 1)
        ctx.cover(states=1, transitions=1, traces=1)
  ctx.sample({"params": pset, "lut3 table": part, "inputs": "all 8"})


def tables(ctx):
  """The cleartext tables behind the gates, for every caching order."""
  from jaxite.jaxite_bool import bool_params as bp
  from jaxite.jaxite_bool import lut
  import numpy as np
  names = [g[:-1] for g in GATES]
  want = {g[:-1]: fn for g, fn in GATES.items()}
  # every ordered pair of requests on one parameter object (cache histories)
  requests = ([("name", n) for n in names] + [("name", "cmux")] +
              [("2", t) for t in range(16)] + [("3", t) for t in (0, 1, 8, 202, 216, 172, 255)])

  def expected(kind, v):
    if kind == "name":
      if v == "cmux":
        return [int(bool(v1 if c else v0)) for v1, v0, c in itertools.product((0, 1), repeat=3)]
      return [int(bool(want[v](bool(x), bool(y)))) for x, y in itertools.product((0, 1), repeat=2)]
    return [(v >> i) & 1 for i in range(2 ** int(kind))]

  def poly(bits, n):
    full = bits + [2] * (8 - len(bits))
    w = n // 8
    c = [v << 28 for v in full for _ in range(w)]
    return c[w // 2:] + [-v % 2**32 for v in c[:w // 2]]

  def ask(p, kind, v):
    if kind == "name":
      return p.lut_by_name(v), p.lut_poly_by_name(v)
    return p.lut(int(kind), v), p.lut_poly(int(kind), v)

  polys = {}
  for r1, r2 in itertools.product(requests, requests):
    p = bp.get_params_for_test()
    for r in (r1, r2):
      key = f"tables:{r1}>{r2}"
      with ctx.impl(key):
        t, c = ask(p, *r)
        e = expected(*r)
        ctx.check([int(v) for v in t.as_cleartext_list] == e, key + ":table",
                  request=r, expected=e, got=[int(v) for v in t.as_cleartext_list])
        if (r1 == r2) or r1[1] == r2[1]:
          msg = np.asarray(c.message)
          n = p.scheme_params.polynomial_modulus_degree
          ctx.equal(key + ":poly", [0] * n, msg[0], request=r)
          ctx.equal(key + ":poly", poly(e, n), msg[-1], request=r)
      ctx.cover(transitions=1)
    ctx.cover(states=1, traces=1)
  # tables built from callables: first argument is the most significant bit
  for n in (1, 2, 3):
    for tt in range(2 ** (2 ** n)):
      fn = lambda *bits: bool((tt >> int("".join(str(int(b)) for b in bits), 2)) & 1)
      got = lut.from_callable(n, fn)
      ctx.check(got.truth_table == tt and got.num_inputs == n, f"tables:callable:{n}:{tt}",
                got=got.truth_table)
      ctx.cover(states=1, transitions=1, traces=1)
  ctx.raises("tables:unknown", ValueError,
             lambda: bp.get_params_for_test().lut_by_name("nope"))


SHARDS = {"gates": gates, "lut3": lut3, "tables": tables}


def shards(tier):
  out = [("tables", {})]
  parts = 4
  out += [(f"gates@{n}", {"pset": n}) for n in PARAM_SETS]
  out += [(f"lut3@small{i}", {"pset": "small", "part": i, "parts": parts})
          for i in range(parts)]
  if tier == "thorough":
    for n in PARAM_SETS:
      if n != "small":
        out += [(f"lut3@{n}{i}", {"pset": n, "part": i, "parts": 2}) for i in range(2)]
    out += [(f"gates@{n}s{s}", {"pset": n, "seed": s}) for n in PARAM_SETS for s in (1, 2)]
  return out
