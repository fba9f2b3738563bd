"""RNS polynomials behave like polynomials modulo the product of the moduli."""
import itertools

PROPERTY = "C16"
RULE = (
    "CRT: every value of every small basis, boundary values of large ones; RNS polynomials: "
    "every sequence of up to 4 operations {neg, add, sub, mul, to NTT, to coefficients} from "
    "every starting pair, explicit-state exploration against integer polynomials with an "
    "aliasing monitor; addition/multiplication kernels: every residue pair of small moduli")


def crt(ctx):
  import math
  from mc import ckks as ck
  from jaxite.jaxite_ckks import rns_utils as ru
  bases = [b for k in (1, 2, 3) for b in itertools.permutations((3, 5, 7, 17, 97), k) if math.prod(b) < 12000]
  big = [ck.primes(8, 28, 3), ck.primes(8, 31, 2), ck.primes(8, 30, 4) + [17], [97] + ck.primes(16, 24, 2), ck.primes(8, 31, 1)]
  for b in [list(x) for x in bases] + big:
    q = math.prod(b)
    if q < 12000:
      xs = list(range(q))
    else:
      xs = sorted({v % q for base in [0, q // 2, q // 3] + [q // m for m in b] + list(b) for v in (base - 1, base, base + 1)}
                  | {q - 1, q - 2} | {(1 << e) % q for e in range(q.bit_length())})
    key = f"crt:{b}"
    with ctx.impl(key):
      res = [[x % m for x in xs] for m in b]
      got = ru.reconstruct_crt(res, b)
      ctx.check(list(got) == xs, key, first=next((x, g) for x, g in zip(xs, got) if x != g) if list(got) != xs else None)
      inv = ru.compute_q_hat_inv_mod_q(b)
      ctx.check(all((q // m) * i % m == 1 % m and 0 <= i < m for m, i in zip(b, inv)), key + ":inverse", got=inv)
      tgt = [11, 2 ** 31 - 1, 13]
      ctx.check([list(r) for r in ru.compute_q_hat_mod_p(b, tgt)] == [[(q // m) % p for p in tgt] for m in b], key + ":hat")
    ctx.cover(states=len(xs), transitions=1, traces=len(xs))
    ctx.outcome(tuple(b))


def polys(ctx, n, moduli, depth):
  import copy
  import math
  import numpy as np
  from mc import ckks as ck
  from jaxite.jaxite_ckks import rns
  q = math.prod(moduli)
  key = f"polys:n{n}:{moduli}"
  params = rns.RnsParams(n, list(moduli))
  base = [[0] * n, [1] + [0] * (n - 1), [0, 1] + [0] * (n - 2), [q - 1] * n, [(i * i * 1234567 + 3) % q for i in range(n)], [q // 2] * n]

  def make(c):
    return rns.gen_rns_polynomial(n, list(c), list(moduli))

  def read(p):
    """integer coefficients mod q of a polynomial in either form, through the NTT parameters"""
    cf = [list(map(int, r)) for r in p.coeffs]
    if p.is_ntt:
      for t, r in zip(params.ntt_params, cf):
        t.backward(r)
    return [int(x) for x in ck.crt(np.array(cf, dtype=object).T, moduli)]

  ops = ["neg", "add", "sub", "rsub", "mul", "ntt", "coef"]
  seen = set()
  for a0, b0 in itertools.product(base, repeat=2):
    frontier = [((tuple(a0), False), ())]
    for _ in range(depth):
      nxt = []
      for (val, form), path in frontier:
        for op in ops:
          if op == "mul" and not form:
            continue
          st = (val, form, op, tuple(b0))
          if st in seen:
            continue
          seen.add(st)
          with ctx.impl(key, path=path + (op,)):
            p, o = make(val), make(b0)
            if form:
              p.to_ntt_form(params.ntt_params)
              o.to_ntt_form(params.ntt_params)
            pc, oc = copy.deepcopy(p), copy.deepcopy(o)
            want_form = form
            if op == "neg":
              r, want = -p, [-x % q for x in val]
            elif op == "add":
              r, want = p + o, [(x + y) % q for x, y in zip(val, b0)]
            elif op == "sub":
              r, want = p - o, [(x - y) % q for x, y in zip(val, b0)]
            elif op == "rsub":
              r, want = o - p, [(y - x) % q for x, y in zip(val, b0)]
            elif op == "mul":
              r, want = p * o, ck.negacyclic(val, b0, q)
            elif op == "ntt":
              p.to_ntt_form(params.ntt_params)
              r, want, want_form = p, list(val), True
            else:
              p.to_coeffs_form(params.ntt_params)
              r, want, want_form = p, list(val), False
            ctx.check(r.is_ntt == want_form and len(r) == n and list(r.moduli) == list(moduli), key, path=path + (op,), problem="form")
            got = read(r)
            ctx.check(got == want, key, path=path + (op,), got=got, want=want, start=a0, other=b0)
            ctx.check(all(0 <= int(c) < m for m, row in zip(moduli, r.coeffs) for c in row), key, problem="not reduced", path=path + (op,))
            if op in ("neg", "add", "sub", "rsub", "mul"):
              # changing the result must not reach the operands
              for row in r.coeffs:
                for j in range(n):
                  row[j] = 0
              r.is_ntt = not r.is_ntt
              ctx.check(p == pc and o == oc, key, problem="operand changed", path=path + (op,))
            nxt.append(((tuple(want), want_form), path + (op,)))
          ctx.cover(states=1, transitions=1, traces=1)
      frontier = nxt[:400] if ctx.quick else nxt[:4000]
  # an operand used twice
  for a0, form in itertools.product(base, (False, True)):
    with ctx.impl(key + ":self"):
      p = make(a0)
      if form:
        p.to_ntt_form(params.ntt_params)
      c = copy.deepcopy(p)
      for name, want, f in (("add", [2 * x % q for x in a0], lambda: p + p), ("sub", [0] * n, lambda: p - p),
                            ("mul", ck.negacyclic(a0, a0, q), (lambda: p * p) if form else None)):
        if f is None:
          continue
        r = f()
        ctx.check(read(r) == want, key + ":self:" + name, operand=a0)
        (r.to_coeffs_form if form else r.to_ntt_form)(params.ntt_params)
        ctx.check(read(r) == want and p == c, key + ":self:" + name, operand=a0, problem="operand changed")
    ctx.cover(states=1, transitions=3, traces=1)
  # mismatched operands are refused
  other = [m for m in ck.primes(n, 20, 4) if m not in moduli]
  a = make(base[3])
  ntt_a = make(base[3])
  ntt_a.to_ntt_form(params.ntt_params)
  bad = [rns.gen_rns_polynomial(n, base[0], other[: len(moduli)]), ntt_a]
  if len(moduli) > 1:
    bad += [rns.gen_rns_polynomial(n, base[0], moduli[:-1]), rns.gen_rns_polynomial(n, base[0], moduli[::-1])]
  bad += [rns.RnsPolynomial(2 * n, list(moduli), [[0] * (2 * n) for _ in moduli])]
  for o in bad:
    for f in (lambda: a + o, lambda: a - o, lambda: o + a, lambda: a * o):
      ctx.raises(key + ":mismatch", ValueError, f)
      ctx.cover(states=1, transitions=1)
  ctx.raises(key + ":mismatch", ValueError, lambda: a * make(base[0]))
  with ctx.impl(key + ":array"):
    arr = a.to_jnp_array()
    back = rns.gen_rns_polynomial_from_jnp_array(n, arr, list(moduli), is_ntt=False)
    ctx.check(back == a, key + ":array")
    back = rns.gen_rns_polynomial_from_jnp_array(n, ntt_a.to_jnp_array(), list(moduli), is_ntt=True)
    back.to_coeffs_form(params.ntt_params)
    ctx.check(back == a, key + ":array", problem="NTT form")
  for c in ([-1] * n, [-q] * n, [q] * n, [5 * q + 3] * n):
    with ctx.impl(key + ":reduce"):
      ctx.check(read(rns.gen_rns_polynomial(n, c, list(moduli))) == [x % q for x in c], key + ":reduce", c=c)
  ctx.outcome((n, tuple(moduli)))


def kernels(ctx):
  import jax
  import jax.numpy as jnp
  import numpy as np
  from mc import ckks as ck
  from jaxite.jaxite_ckks import add
  from jaxite.jaxite_ckks import barrett
  from jaxite.jaxite_ckks import mul
  from jaxite.jaxite_ckks import types
  sets = [[17], [97], [17, 97], [193, 257, 5]] + [[m] for m in (2, 3, 5, 7)]
  big = [ck.primes(8, 31, 2), ck.primes(8, 28, 1) + ck.primes(8, 31, 1), [2 ** 31 - 1], [65537, 12289]]
  for mods in sets + big:
    q = np.array(mods, dtype=object)
    if max(mods) < 300:
      cols = [[(a, b) for a in range(m) for b in range(m)] for m in mods]
    else:
      cols = []
      for m in mods:
        al = [0, 1, 2, m - 1, m - 2, m // 2, m // 2 + 1, m // 3, min(m - 1, 65535), min(m - 1, 65536)]
        cols.append(list(itertools.product(al, repeat=2)))
    width = max(map(len, cols))
    cols = [(c * (width // len(c) + 1))[:width] for c in cols]
    a = np.array([[p[0] for p in c] for c in cols], dtype=np.uint32).T
    b = np.array([[p[1] for p in c] for c in cols], dtype=np.uint32).T
    key = f"kernels:{mods}"
    with ctx.impl(key):
      want = (a.astype(object) + b.astype(object)) % q
      ks = [add.AddModularBarrett(barrett.precompute_barrett_constants(mods)), add.AddModularSubtract(mods)]
      for k in ks:
        if min(mods) == 2 and isinstance(k, add.AddModularBarrett):
          pass
        ctx.equal(key + ":" + type(k).__name__, want, np.asarray(k.add(jnp.asarray(a), jnp.asarray(b))).astype(object))
        ctx.equal(key + ":3d", np.stack([want, want]), np.asarray(k.add(jnp.asarray([a, a]), jnp.asarray([b, b]))).astype(object))
        ctx.equal(key + ":jit:" + type(k).__name__, want, np.asarray(jax.jit(lambda kk, x, y: kk.add(x, y))(k, jnp.asarray(a), jnp.asarray(b))).astype(object))
      raw = np.asarray(add.AddSimple().add(jnp.asarray(a), jnp.asarray(b))).astype(object)
      ctx.equal(key + ":AddSimple", (a.astype(object) + b.astype(object)) % (1 << 32), raw)
      # unreduced operands up to the documented bound a + b < m^2
      if min(mods) > 2:
        ua = np.array([[(m * m - 1) - p[1] - p[0] * p[1] % m for p in c] for m, c in zip(mods, cols)], dtype=np.uint64).T
        got = ks[0].add(jnp.asarray(ua), jnp.asarray(b.astype(np.uint64)))
        ctx.equal(key + ":unreduced", (ua.astype(object) + b.astype(object)) % q, np.asarray(got).astype(object))
      mo = jnp.asarray(mods, dtype=jnp.uint32)
      mk = mul.MulPlaintextCiphertextBarrett(barrett.precompute_barrett_constants(mods))
      ct = types.Ciphertext(jnp.asarray(np.stack([a, a[::-1]])), mo)
      pt = types.Plaintext(jnp.asarray(b), mo)
      out = mk.mul(ct, pt)
      w = np.stack([a.astype(object) * b.astype(object) % q, a[::-1].astype(object) * b.astype(object) % q])
      ctx.equal(key + ":mul", w, np.asarray(out.data).astype(object))
      ctx.check(np.asarray(out.moduli).tolist() == mods, key + ":mul", problem="moduli")
      ctx.equal(key + ":mul:operands", np.stack([a, a[::-1]]), ct.data)
      raw = mul.MulPlaintextCiphertextSimple().mul(
          types.Ciphertext(jnp.asarray(a[None].astype(np.uint64)), mo), types.Plaintext(jnp.asarray(b.astype(np.uint64)), mo))
      ctx.equal(key + ":mul simple", (a.astype(object) * b.astype(object))[None], np.asarray(raw.data).astype(object))
      for k2 in (mk, mul.MulPlaintextCiphertextSimple()):
        wrong = types.Plaintext(jnp.asarray(b), jnp.asarray([m + 2 for m in mods], dtype=jnp.uint32))
        ctx.raises(key + ":mul:mismatch", ValueError, lambda: k2.mul(ct, wrong))
    ctx.cover(states=a.size, transitions=8, traces=a.size)
    ctx.outcome(tuple(mods))
  ctx.raises("kernels:none", ValueError, lambda: add.AddModularBarrett(None).add(1, 2))
  ctx.raises("kernels:none", ValueError, lambda: mul.MulPlaintextCiphertextBarrett(None).mul(None, None))


SHARDS = {"crt": crt, "polys": polys, "kernels": kernels}


def shards(tier):
  d = 4 if tier == "quick" else 6
  cfg = [(2, [5, 13]), (4, [17, 41, 73]), (4, [17]), (8, [97, 193]), (8, [1073741441 if (1073741441 - 1) % 16 == 0 else 97, 17])]
  return [("crt", {}), ("kernels", {})] + [(f"polys@{i}", {"n": n, "moduli": m, "depth": d}) for i, (n, m) in enumerate(cfg)]
