"""Any sequence of homomorphic operations decrypts to the same sequence on cleartexts."""

PROPERTY = "C20"
RULE = (
    "depth-first exploration of all operation sequences (add, add itself, add plaintext product, multiply, square, multiply by plaintext, "
    "conjugate, drop a level) up to a depth over a chain of levels on real ciphertexts and keys; after every step the "
    "phase is compared over the rationals with the exact polynomial model within the accumulated worst-case bound, the "
    "decoded slots with complex arithmetic, and the operands must be unchanged")

N = 8


def _mul(a, b):
  out = [0] * N
  for i, x in enumerate(a):
    for j, y in enumerate(b):
      if i + j < N:
        out[i + j] += x * y
      else:
        out[i + j - N] -= x * y
  return out


def _l1(a):
  return sum(abs(x) for x in a)


class World:
  """Keys and kernels of every level."""

  def __init__(self, sizes, psizes, dnum, s, noise):
    import math
    import jax.numpy as jnp
    from jaxite.jaxite_ckks import barrett
    from jaxite.jaxite_ckks import basis_conversion
    from jaxite.jaxite_ckks import conjugate
    from jaxite.jaxite_ckks import key_gen
    from jaxite.jaxite_ckks import mul
    from jaxite.jaxite_ckks import rescale
    from mc import ckks as ck
    from mc.checks import c21
    mods = c21.chain(N, sizes + psizes)
    self.q, self.p = mods[:len(sizes)], mods[len(sizes):]
    self.s, self.dnum = s, dnum
    self.emax = max(map(abs, noise)) if noise else 0
    self.p_arr = jnp.array(self.p, dtype=jnp.uint32)
    self.pv = math.prod(self.p)
    self.levels = {}
    for lv in range(1, len(self.q) + 1):
      q = self.q[:lv]
      sk = c21.secret(s, q)
      src = lambda k: ck.Script(gauss=noise or 0, salt=97 * lv + k)  # pylint: disable=cell-var-from-loop
      w = {"q": q, "qv": math.prod(q), "sk": sk}
      w["evk"] = key_gen.gen_evaluation_key(sk, list(q), list(self.p), dnum, random_source=src(1))
      w["ckey"] = key_gen.gen_conjugate_key(sk, list(q), list(self.p), dnum, random_source=src(2))
      w["mul"] = mul.Mul()
      w["mul"].precompute_constants(list(q) + [self.p[0]], list(self.p), dnum, 2, 4)
      w["pt"] = mul.MulPlaintextCiphertextBarrett(barrett.precompute_barrett_constants(q))
      if lv > 1:
        w["rescale"] = rescale.Rescale()
        w["rescale"].precompute_constants(list(q), 1, 2, 4)
      w["bc"] = basis_conversion.BasisConversionBarrett()
      w["bc"].precompute_constants(q + self.p, c21.bc_pairs(lv, len(self.p), dnum))
      w["mk"] = mul.MulPlaintextCiphertextBarrett(barrett.precompute_barrett_constants(q + self.p))
      w["conj"] = conjugate.Conjugation()
      w["conj"].precompute_constants(list(q), list(self.p), dnum, 2, 4)
      w["down"] = rescale.Rescale()
      w["down"].precompute_constants(q + self.p, len(self.p), 2, 4)
      groups = c21.partition(lv, dnum)
      ksn = sum(N * self.emax * len(g) * math.prod(q[i] for i in g) for g in groups) / self.pv
      w["relin_err"] = len(self.p) * (1 + _l1(s)) + ksn
      w["conj_err"] = (1 + _l1(s)) / 2 + 1 + ksn
      self.levels[lv] = w


def explore(ctx, first, depth, sizes, psizes, dnum, key_index):
  import math
  from fractions import Fraction
  import numpy as np
  import jax.numpy as jnp
  from jaxite.jaxite_ckks import add
  from jaxite.jaxite_ckks import barrett
  from jaxite.jaxite_ckks import encode
  from jaxite.jaxite_ckks import encrypt
  from jaxite.jaxite_ckks import key_gen
  from jaxite.jaxite_ckks import types
  from mc import ckks as ck
  from mc import core
  from mc.checks import c21
  s = c21.KEYS8[key_index]
  w = World(sizes, psizes, dnum, s, (1, -3, 2, 0, 3, -1))
  top = len(w.q)
  scale0 = 2.0 ** 25
  mus = [[1.5 - 0.5j, -2 + 0.25j, 0.75j, -1 - 1j], [0.5 + 1j, 1.25, -0.5 - 0.75j, 1j]]
  pk, _ = key_gen.keygen(N, list(w.q), random_source=ck.Script(gauss=(2, -1, 0), ternary=s, salt=4))
  inputs = []
  for i, mu in enumerate(mus):
    pt = encode.Encode(N, list(w.q), scale0).encode(mu)
    ct = encrypt.Encrypt(pk).encrypt(pt, random_source=ck.Script(gauss=(1, 0, -2, 3), ternary=(1, -1, 0, 1, 1), salt=20 + i))
    data = np.asarray(ct.data)
    inputs.append((data, [int(v) for v in c21.phase(data, s, w.q)]))
  pmu = [0.5 + 0.5j, -1.5, 1j, 2 - 0.25j]
  fresh = lambda i, lv: types.Ciphertext(jnp.asarray(inputs[i][0][:, :, :lv]), jnp.asarray(w.q[:lv], dtype=jnp.uint32))

  def limit(lv):
    return w.levels[lv]["qv"] / 2 * 0.9

  # a state: ciphertext, level, model polynomial (rationals), error bound, scale, slots
  def step(op, st):
    ct, lv, v, e, scale, mu = st
    L = w.levels[lv]
    if op.startswith("add"):
      if op == "add-self":
        o_ct, o_v, o_e, o_mu, o_sc = ct, v, e, mu, scale
      else:
        i = int(op[-1])
        o_v, o_e, o_mu, o_sc = inputs[i][1], 0, mus[i], scale0
      nv = [a + b for a, b in zip(v, o_v)]
      if max(map(abs, nv)) + e + o_e > limit(lv):
        return None
      if op != "add-self":
        o_ct = fresh(int(op[-1]), lv)
      data = adders[lv][op == "add1"].add(ct.data, o_ct.data).astype(jnp.uint32)
      out = types.Ciphertext(data, ct.moduli)
      # slots are only meaningful when the scales agree; the model polynomial always is
      return out, lv, nv, e + o_e, scale, [a + b * o_sc / scale for a, b in zip(mu, o_mu)]
    if op.startswith("mul") or op == "square":
      if lv < 2:
        return None
      if op == "square":
        o_v, o_e, o_mu, o_sc = v, e, mu, scale
      else:
        i = int(op[-1])
        o_v, o_e, o_mu, o_sc = inputs[i][1], 0, mus[i], scale0
      prod = _mul(v, o_v)
      perr = _l1(v) * o_e + _l1(o_v) * e + N * e * o_e
      if max(map(abs, prod)) + perr + L["relin_err"] > limit(lv):
        return None
      o_ct = ct if op == "square" else fresh(int(op[-1]), lv)
      ql = w.q[lv - 1]
      three = L["mul"].tensor_multiply(ct, o_ct)
      if op.startswith("mul-late"):  # rescale the three elements first, relinearise below
        L["rescale"].rescale(three)
        out = w.levels[lv - 1]["mul"].relinearize(three, w.levels[lv - 1]["evk"])
        ne = perr / ql + (1 + _l1(s) + s2l1) / 2 + w.levels[lv - 1]["relin_err"]
      else:
        out = L["mul"].relinearize(three, L["evk"])
        L["rescale"].rescale(out)
        ne = (perr + L["relin_err"]) / ql + (1 + _l1(s)) / 2
      return out, lv - 1, [Fraction(x) / ql for x in prod], ne, scale * o_sc / ql, [a * b for a, b in zip(mu, o_mu)]
    if op == "plain":
      if lv < 2:
        return None
      ql = w.q[lv - 1]
      pt = encode.Encode(N, list(L["q"]), float(2 ** 24)).encode(pmu)
      pv = [int(x) for x in c21.integers(np.asarray(pt.data), L["q"])]
      prod = _mul(v, pv)
      perr = _l1(pv) * e
      if max(map(abs, prod)) + perr > limit(lv):
        return None
      out = L["pt"].mul(ct, pt)
      L["rescale"].rescale(out)
      return (out, lv - 1, [Fraction(x) / ql for x in prod], perr / ql + (1 + _l1(s)) / 2, scale * 2 ** 24 / ql,
              [a * b for a, b in zip(mu, pmu)])
    if op == "conjugate":
      if max(map(abs, v)) + e + L["conj_err"] > limit(lv):
        return None
      out = L["conj"].conjugate(ct, L["ckey"], w.p_arr, L["bc"], L["mk"], L["down"], 0)
      nv = [v[0]] + [-x for x in v[1:][::-1]]
      return out, lv, nv, e + L["conj_err"], scale, [complex(z).conjugate() for z in mu]
    if op == "drop":
      if lv < 2 or max(map(abs, v)) + e > limit(lv - 1):
        return None
      return (types.Ciphertext(ct.data[..., :lv - 1], ct.moduli[:lv - 1]), lv - 1, v, e, scale, mu)
    raise AssertionError(op)

  s2 = _mul(s, s)
  s2l1 = _l1(s2)
  adders = {lv: (add.AddModularSubtract(L["q"]), add.AddModularBarrett(barrett.precompute_barrett_constants(L["q"])))
            for lv, L in w.levels.items()}
  ops = ["add0", "add1", "add-self", "mul0", "mul-late1", "square", "plain", "conjugate", "drop"]
  van = np.array([[np.exp(1j * np.pi * pow(5, j, 2 * N) / N * i) for i in range(N)] for j in range(N // 2)])

  def judge(trace, st):
    ct, lv, v, e, scale, mu = st
    L = w.levels[lv]
    key = "history:" + ">".join(trace)
    data = np.asarray(ct.data)
    if not ctx.check(data.shape == (2, N, lv) and np.asarray(ct.moduli).tolist() == L["q"], key, problem="shape",
                     got=data.shape, moduli=np.asarray(ct.moduli)):
      return False
    if not ctx.check((data.astype(np.uint64) < np.array(L["q"], dtype=np.uint64)).all(), key, problem="unreduced"):
      return False
    ph = c21.phase(data, s, L["q"])
    err = max(abs(Fraction(int(a)) - b) for a, b in zip(ph, v))
    if not ctx.check(err <= e + 1e-9, key, problem="decrypts to something else", error=float(err), bound=float(e), level=lv,
                     secret=s):
      return False
    # the library's own decryption and decoding
    dec = encode.Decode(scale, N // 2).decode(encrypt.Decrypt(L["sk"]).decrypt(types.Ciphertext(ct.data, ct.moduli)))
    ideal = van @ np.array([float(x) for x in v]) / scale
    ctx.close(key + ":slots", ideal, np.array(dec), N * (float(e) + 1) / scale + 1e-6)
    # the polynomial model and slot-wise complex arithmetic are the same thing (checks the model)
    if np.max(np.abs(ideal - np.array(mu))) > 1e-3 * (1 + np.max(np.abs(ideal))) ** 2:
      raise core.HarnessError(f"models disagree after {trace}: {ideal} {mu}")
    ctx.state((tuple(trace),))
    ctx.outcome((lv, int(float(err)), round(np.log2(scale))))
    return True

  def dfs(trace, st, left, only=None):
    if left == 0:
      return
    before = np.asarray(st[0].data).copy()
    for op in ops if only is None else [only]:
      with ctx.impl("history:" + ">".join(trace + [op])):
        nxt = step(op, st)
        if nxt is None:
          ctx.outcome("out of range")
          continue
        ctx.cover(transitions=1, traces=1)
        good = judge(trace + [op], nxt)
        ctx.equal("history:" + ">".join(trace + [op]) + ":operand", before, np.asarray(st[0].data))
        if good:
          dfs(trace + [op], nxt, left - 1)

  start = (fresh(0, top), top, inputs[0][1], 0, scale0, mus[0])
  if judge([], start):
    for f in first.split("|"):
      dfs([], start, depth, f)
  ctx.bound(depth=depth, levels=top, first=first)


SHARDS = {"explore": explore}


def shards(tier):
  ops = ["mul0", "mul-late1", "square", "plain", "conjugate", "add0", "add1", "add-self|drop"]
  out = []
  for i, f in enumerate(ops):
    out.append((f"explore@{f}", {"first": f, "depth": 3 if tier == "quick" else 5, "sizes": [31, 27, 27, 27], "psizes": [31, 31],
                                 "dnum": 2, "key_index": i % 5}))
  if tier == "thorough":
    for d, ps in ((1, [31, 31, 30, 30]), (3, [31]), (4, [30])):
      for i, f in enumerate(ops):
        out.append((f"explore@{f}-d{d}", {"first": f, "depth": 4, "sizes": [31, 27, 27, 27], "psizes": ps, "dnum": d,
                                          "key_index": (i + d) % 5}))
  return out
