"""Reference field and curve classes of jaxite_ec.algorithm: a field, and its curve groups."""
import itertools

PROPERTY = "C28"
RULE = (
    "every pair of elements of every prime field up to the bound for the plain, Barrett and Montgomery "
    "elements, every operation sequence of depth two over them and every exponent; every pair of points "
    "of every curve over the bounded primes, in every projective scaling of the bounded set, in affine, "
    "projective and XYZZ coordinates; every pair of points of every complete twisted Edwards curve that "
    "comes from a Weierstrass curve over the bounded primes, with the twist maps; boundary values of the "
    "real 377-bit field and curve. Oracle: Python integers and the chord-and-tangent definition. Sums of "
    "points whose formula is documented as incomplete (P + P in another scaling, P - P) are left out")

OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b}


def _read(x):
  """The integer an element stands for."""
  if hasattr(x, "montgomeryized"):
    y = x.copy()
    y = y.change_montgomery_form() if y.montgomeryized else y
    return int(y.value)
  return int(x.value)


def _int(op, a, b, p):
  return {"+": a + b, "-": a - b, "*": a * b}[op] % p if op != "/" else a * pow(b, -1, p) % p


def _classes():
  from jaxite.jaxite_ec.algorithm import finite_field as ff
  return {"plain": ff.FiniteFieldElement, "barrett": ff.FiniteFieldElementBarrett, "montgomery": ff.FiniteFieldElementMontgomery}


def field(ctx, kind, primes):
  from jaxite.jaxite_ec.algorithm import big_integer
  cls = _classes()[kind]
  for p in primes:
    ks = [None]
    if kind != "plain":
      n = (p - 1).bit_length()
      ks = [None, n, n + 1, n + 3]
    for k in ks:
      for big in (False, True):
        if big and k is not None:
          continue
        key = f"field:{kind}:{p}:k={k}:{'big' if big else 'int'}"
        wrap = big_integer.GMPBigInteger if big else int
        mk = (lambda v: cls(wrap(v), wrap(p))) if kind == "plain" or k is None else (lambda v: cls(v, p, k))
        with ctx.impl(key):
          els = [mk(v) for v in range(p)]
          ctx.check([_read(e) for e in els] == list(range(p)), key + ":value")
          for v in (p, p + 1, -1, 2 * p):
            ctx.raises(f"{key}:refuse {v}", ValueError, lambda v=v: mk(v))
          first = {}
          for op, f in OPS.items():
            for a, b in itertools.product(range(p), range(p)):
              if op == "/" and b == 0:
                continue
              r = f(els[a], els[b])
              want = _int(op, a, b, p)
              ok = ctx.check(_read(r) == want, f"{key}:{a}{op}{b}", got=_read(r), want=want)
              # canonical: equal elements compare equal, and the operands are kept
              if ok:
                ctx.check(int(r.value) == int(els[want].value) and r == els[want], f"{key}:{a}{op}{b}:canonical", got=int(r.value))
              first[op, a, b] = r
              ctx.cover(states=1, transitions=1, traces=1)
          ctx.check([_read(e) for e in els] == list(range(p)), key + ":operands kept")
          # second operation on a computed value
          if p <= (7 if ctx.quick else 13) and not big:
            for (op, a, b), r in first.items():
              v = _int(op, a, b, p)
              for op2, f in OPS.items():
                for c in range(p):
                  if op2 == "/" and c == 0:
                    continue
                  got = _read(f(r, els[c]))
                  ctx.check(got == _int(op2, v, c, p), f"{key}:({a}{op}{b}){op2}{c}", got=got)
                  ctx.cover(transitions=1, traces=1)
          # a sum of equal terms, a difference chain: long histories
          for a in range(p):
            acc, want = els[a], a
            for step in range(2 * p + 1):
              op = "+-*+"[step % 4]
              acc, want = OPS[op](acc, els[(a + step) % p]), _int(op, want, (a + step) % p, p)
              ctx.check(_read(acc) == want and acc == els[want], f"{key}:chain {a}", step=step)
              ctx.cover(transitions=1)
          for a in range(p):
            for e in list(range(0, p + 2)):
              r = els[a]**e
              ctx.check(_read(r) == pow(a, e, p), f"{key}:{a}**{e}", got=_read(r))
            for v in range(p):
              c = els[a].copy(v) if kind != "montgomery" else els[a].copy(v, transform=True)
              ctx.check(_read(c) == v and c == els[v], f"{key}:copy {a} as {v}", got=_read(c))
              ctx.check(_read(els[a]) == a, f"{key}:copy kept {a}")
            c = els[a].copy()
            ctx.check(c == els[a] and c is not els[a], f"{key}:copy {a}")
            c.value = els[(a + 1) % p].value
            ctx.check(_read(els[a]) == a, f"{key}:copy aliased {a}")
            if kind == "barrett":
              for v in range(p * p):
                c = els[a].copy(v, reduction=True)
                if not ctx.check(_read(c) == v % p, f"{key}:copy reduced {v}", got=_read(c)):
                  break
            for b in range(p):
              ctx.check((els[a] == els[b]) == (a == b), f"{key}:eq {a} {b}")
            s = mk(a)
            for v in range(p):
              s.set_value(v)
              ctx.check(int(s.value) == v, f"{key}:set {v}")
            for v in (p, -1):
              ctx.raises(f"{key}:set {v}", ValueError, lambda v=v: s.set_value(v))
          other = cls(0, 101) if p != 101 else cls(0, 103)
          for op, f in OPS.items():
            ctx.raises(f"{key}:mixed {op}", ValueError, lambda f=f: f(els[0], other))
        ctx.outcome(key)
  ctx.bound(primes=primes)


def big(ctx):
  """The 377-bit field: boundary values."""
  from mc import ec
  p = ec.P
  vals = sorted({0, 1, 2, 3, p - 1, p - 2, p // 2, p // 2 + 1, 1 << 376, (1 << 376) - 1, p >> 1, 1 << 192, p - (1 << 192), p // 3, 2 * p // 3 + 1,
                 pow(7, 12345, p), pow(11, 54321, p), pow(1 << 384, -1, p), pow(2, 377, p)})
  for kind, cls in _classes().items():
    key = f"big:{kind}"
    with ctx.impl(key):
      els = {v: cls(v, p) for v in vals}
      for a, b in itertools.product(vals, vals):
        for op, f in OPS.items():
          if op == "/" and b == 0:
            continue
          got = _read(f(els[a], els[b]))
          ctx.check(got == _int(op, a, b, p), f"{key}:{op}", a=hex(a), b=hex(b), got=hex(got))
          ctx.cover(states=1, transitions=1, traces=1)
      for a in vals:
        for e in (0, 1, 2, 3, p - 2, p - 1, (p - 1) // 2, 65537):
          ctx.check(_read(els[a]**e) == pow(a, e, p), f"{key}:**", a=hex(a), e=hex(e))
          ctx.cover(transitions=1)
    ctx.outcome(key)
  # integers
  from jaxite.jaxite_ec.algorithm import big_integer
  B = big_integer.GMPBigInteger
  ints = list(range(-9, 70)) + [v for v in vals if v > 3] + [-p, p * p, (1 << 400) + 1]
  bins = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "and": lambda a, b: a & b,
          "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b,
          "eq": lambda a, b: a == b, "ne": lambda a, b: a != b}
  for a, b in itertools.product(ints, ints):
    with ctx.impl("integer", a=hex(a), b=hex(b)):
      for name, f in bins.items():
        want = f(a, b)
        for other in (B(b), b):
          got = f(B(a), other)
          got = bool(got) if isinstance(want, bool) else int(got)
          ctx.check(got == want, f"integer:{name}", a=hex(a), b=hex(b), got=got)
      if b:
        ctx.check(int(B(a) / B(b)) == a // b and int(B(a) / b) == a // b, "integer:div", a=hex(a), b=hex(b))
        ctx.check(int(B(a) % B(b)) == a % b and int(B(a) % b) == a % b, "integer:mod", a=hex(a), b=hex(b))
      if 0 <= b < 70:
        ctx.check(int(B(a) << b) == a << b and int(B(a) << B(b)) == a << b, "integer:shl", a=hex(a), b=b)
        ctx.check(int(B(a) >> b) == a >> b and int(B(a) >> B(b)) == a >> b, "integer:shr", a=hex(a), b=b)
        ctx.check(int(B(a)**b) == a**b, "integer:pow", a=hex(a), b=b)
        ctx.check(int(B(a).__pow__(b, 97)) == pow(a, b, 97) and int(B(a).__pow__(B(b), B(97))) == pow(a, b, 97), "integer:powmod", a=hex(a), b=b)
      if a > 0:
        ctx.check(int(B(a).ceil_log2()) == (a - 1).bit_length(), "integer:ceil_log2", a=hex(a))
      ctx.check(int(B(a)) == a and int(B(B(a))) == a, "integer:int", a=hex(a))
    ctx.cover(states=1, transitions=30, traces=1)
  for a in ints:
    if a > 0:
      ctx.check(B(a).hex_value_str() == hex(a), "integer:hex", a=hex(a))
  for k in range(2, 420):
    for d in (-1, 0, 1):
      v = (1 << k) + d
      with ctx.impl("integer:ceil_log2", a=hex(v)):
        ctx.check(int(B(v).ceil_log2()) == (v - 1).bit_length(), "integer:ceil_log2", a=hex(v))
  ctx.raises("integer:zero division", ZeroDivisionError, lambda: B(3) / B(0))
  ctx.outcome("integer")


# ---------------------------------------------------------------- curves


def _points(p, a, b):
  return [(x, y) for x in range(p) for y in range(p) if (y * y - x**3 - a * x - b) % p == 0]


def _add(P, Q, p, a):
  if P is None:
    return Q
  if Q is None:
    return P
  if P[0] == Q[0]:
    if (P[1] + Q[1]) % p == 0:
      return None
    s = (3 * P[0] * P[0] + a) * pow(2 * P[1], -1, p) % p
  else:
    s = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
  x = (s * s - P[0] - Q[0]) % p
  return x, (s * (P[0] - x) - P[1]) % p


def _curves(p):
  for a, b in itertools.product(range(p), range(p)):
    if (4 * a**3 + 27 * b * b) % p:
      pts = _points(p, a, b)
      if pts:
        yield a, b, pts


def _affine_of(q, kind, p):
  """Affine integers of a returned point; None for the neutral element."""
  if q.is_zero():
    return None
  c = [int(v.value) for v in q.coordinates]
  if kind == "affine":
    return c[0], c[1]
  if kind == "projective":
    if c[2] == 0:
      return None if c[0] == 0 and c[1] else "bad"
    i = pow(c[2], -1, p)
    return c[0] * i % p, c[1] * i % p
  if c[2] == 0 or c[3] == 0 or (c[2]**3 - c[3]**2) % p:
    return "bad"
  return c[0] * pow(c[2], -1, p) % p, c[1] * pow(c[3], -1, p) % p


def weierstrass(ctx, kind, p):
  from jaxite.jaxite_ec.algorithm import elliptic_curve as E
  cls = {"affine": E.ECCSWeierstrassAffine, "projective": E.ECCSWeierstrassProjective, "xyzz": E.ECCSWeierstrassXYZZ}[kind]
  zs = [1] if kind == "affine" else ([1, 2, p - 1] if ctx.quick else list(range(1, p)))
  ncurves = 0
  for a, b, pts in _curves(p):
    ncurves += 1
    odd = all(y for _, y in pts)  # no point of order two
    cs = cls({"prime": p, "order": len(pts) + 1, "a": a, "b": b, "generator": list(pts[0])})

    def mk(P, z):
      x, y = P
      if kind == "affine":
        return cs.generate_point([x, y])
      if kind == "projective":
        return cs.generate_point([x * z % p, y * z % p, z])
      if z == 1:
        return cs.generate_point([x, y])
      return cs.generate_point([x * z * z % p, y * z**3 % p, z * z % p, z**3 % p])

    key = f"curve:{kind}:{p}:{a},{b}"
    with ctx.impl(key):
      reps = {(P, z): mk(P, z) for P in pts for z in zs}
      O = cs.generate_point(zero=True)
      ctx.check(O.is_zero() and (O + O).is_zero() and (O << 3).is_zero(), key + ":neutral")
      for (P, z), q in reps.items():
        before = [int(v.value) for v in q.coordinates]
        ctx.check(_affine_of(q + O, kind, p) == P and _affine_of(O + q, kind, p) == P, f"{key}:{P} + O", z=z)
        c = q.copy()
        ctx.check(c == q and c is not q and c.coordinates is not q.coordinates, f"{key}:copy")
        aff = q.convert_to_affine()
        ctx.check((int(aff[0].value), int(aff[1].value)) == P, f"{key}:affine {P}", z=z)
        if kind == "xyzz" and z == 1:
          af = E.ECCSWeierstrassAffine(cs.config)
          ap = af.generate_point(list(P))
          t = cs.convert_from_affine(ap)
          ctx.check(_affine_of(t, kind, p) == P and len(t.coordinates) == 4 and t.get_type() == cs.get_type(), f"{key}:from affine {P}")
          ctx.check(len(ap.coordinates) == 3 and ap.get_type() == af.get_type(), f"{key}:from affine kept")
        want = P
        for s in range(1, 4):  # doublings, as long as no intermediate point has order two
          if want is None or want[1] == 0:
            break
          want = _add(want, want, p, a)
          ctx.check(_affine_of(q << s, kind, p) == want, f"{key}:{P} << {s}", z=z)
          ctx.cover(transitions=s)
        ctx.check(_affine_of(q << 0, kind, p) == P, f"{key}:{P} << 0", z=z)
        ctx.check([int(v.value) for v in q.coordinates] == before, f"{key}:kept")
      for (P, z), q in reps.items():
        for (Q, w), r in reps.items():
          want = _add(P, Q, p, a)
          if P == Q and z != w and not (kind == "projective" and odd and 1 not in (z, w)):
            continue
          if P == Q and P[1] == 0:
            continue
          if want is None and not (kind == "projective" and odd and 1 not in (z, w)):
            continue
          if kind == "projective" and not odd and 1 not in (z, w) and P != Q:
            d = _add(P, (Q[0], -Q[1] % p), p, a)
            if d is not None and d[1] == 0:
              continue  # the one exceptional case of the complete formula
          got = _affine_of(q + r, kind, p)
          ctx.check(got == want, f"{key}:{P}+{Q}", z=(z, w), got=got, want=want)
          ctx.cover(states=1, transitions=1, traces=1)
      # multiples of every point by repeated addition and by doubling, in general position
      for P in pts:
        acc, want, q = mk(P, 1), P, mk(P, 1)
        for n in range(2, 8):
          nxt = _add(want, P, p, a)
          if want is None or nxt is None or (want == P and n > 2) or (n == 2 and P[1] == 0):
            break
          acc, want = acc + q, nxt
          got = _affine_of(acc, kind, p)
          ctx.check(got == want, f"{key}:{n}*{P}", got=got, want=want)
          ctx.cover(transitions=1)
    ctx.outcome(key)
    if ctx.quick and ncurves >= 60:
      break
  ctx.bound(prime=p, curves=ncurves, scalings=zs)


def edwards(ctx, p):
  """Every curve y^2 = x^3 + ax + b with a twisted Edwards form -x^2 + y^2 = 1 + d x^2 y^2, d not a square."""
  from jaxite.jaxite_ec.algorithm import elliptic_curve as E
  sqrt = {}
  for v in range(p):
    sqrt.setdefault(v * v % p, []).append(v)
  inv = lambda v: pow(v, -1, p)
  count = 0
  for a, b, pts in _curves(p):
    for alpha in range(p):
      if (alpha**3 + a * alpha + b) % p:
        continue
      for u in sqrt.get((3 * alpha * alpha + a) % p, []):
        if u == 0:
          continue
        s = inv(u)
        ma, mb = 3 * alpha * s % p, s
        if (ma + 2) % p == 0 or (ma - 2) % p == 0:
          continue
        ea, ed = (ma + 2) * inv(mb) % p, (ma - 2) * inv(mb) % p
        for t in sqrt.get(-ea % p, []):
          d = ed * inv(t * t) % p
          if t == 0 or d in sqrt or (p - 1) not in sqrt:
            continue  # keep the complete ones
          count += 1
          if count > (6 if ctx.quick else 60):
            continue
          key = f"edwards:{p}:{a},{b},{alpha},{s},{t}"
          with ctx.impl(key):
            cs = E.ECCSTwistedEdwardsExtended({"prime": p, "order": len(pts) + 1, "a": p - 1, "d": d, "alpha": alpha, "b": b, "s": s,
                                               "MA": ma, "MB": mb, "t": t, "generator": list(pts[0])})

            def tw(P):
              """The definition of the map."""
              if P is None:
                return 0, 1
              xm, ym = s * (P[0] - alpha) % p, s * P[1] % p
              if ym == 0:
                return (0, p - 1) if P[0] == alpha else "infinite"
              if xm == p - 1:
                return "infinite"
              return xm * inv(ym) * t % p, (xm - 1) * inv(xm + 1) % p

            def aff(q):
              x, y, z, tt = [int(v.value) for v in q.coordinates]
              if z == 0 or (x * y - z * tt) % p:
                return "bad"
              return x * inv(z) % p, y * inv(z) % p

            def eadd(A, B):
              m = d * A[0] * B[0] * A[1] * B[1] % p
              return (A[0] * B[1] + A[1] * B[0]) * inv(1 + m) % p, (A[1] * B[1] + A[0] * B[0]) * inv(1 - m) % p

            image = {}
            for P in pts:
              want = tw(P)
              ints = cs.twist_int_coordinates(list(P))
              if P[1] == 0 or (s * (P[0] - alpha)) % p == p - 1:
                ctx.check(ints == [0, 1, 1, 0], f"{key}:twist special {P}", got=ints)
                continue
              ctx.check(ints == [want[0], want[1], 1, want[0] * want[1] % p], f"{key}:twist {P}", got=ints, want=want)
              q = cs.generate_point(list(P))
              ctx.check(aff(q) == want, f"{key}:point {P}")
              image[want] = q
              back = q.convert_to_affine()
              if want[0]:
                ctx.check((int(back[0].value), int(back[1].value)) == P, f"{key}:untwist {P}")
                un = cs.untwist([q[0], q[1]])
                ctx.check((int(un[0].value), int(un[1].value)) == P, f"{key}:untwist {P}")
              pr = cs.twist_projective([cs.ff_zero.copy(P[0]), cs.ff_zero.copy(P[1]), cs.ff_one])
              c = [int(v.value) for v in pr]
              if c[2]:
                ctx.check((c[0] * inv(c[2]) % p, c[1] * inv(c[2]) % p) == want, f"{key}:projective twist {P}")
              ctx.cover(states=1, transitions=4, traces=1)
            # all points of the Edwards curve, in several scalings
            all_pts = [(x, y) for x in range(p) for y in range(p) if (-x * x + y * y - 1 - d * x * x * y * y) % p == 0]
            zs = [1, 2] if ctx.quick else [1, 2, 3, p - 1]
            reps = {(A, z): cs.generate_point([A[0] * z % p, A[1] * z % p, z, A[0] * A[1] * z % p], twist=False) for A in all_pts for z in zs}
            zero = cs.generate_point(None, zero=True, twist=False)
            ctx.check(aff(zero) == (0, 1) and zero.is_zero(), key + ":neutral")
            for (A, z), q in reps.items():
              if A in image:
                tea = cs.convert_to_twisted_edwards_affine(q)
                ctx.check((int(tea[0].value), int(tea[1].value)) == A, f"{key}:affine {A}")
              ctx.check(aff(q + zero) == A and aff(zero + q) == A, f"{key}:{A}+O")
              want = A
              for sh in range(0, 4):
                ctx.check(aff(q << sh) == want, f"{key}:{A}<<{sh}", z=z)
                want = eadd(want, want)
                ctx.cover(transitions=sh)
              for (B, w), r in reps.items():
                got = aff(q + r)
                ctx.check(got == eadd(A, B), f"{key}:{A}+{B}", z=(z, w), got=got)
                ctx.cover(states=1, transitions=1, traces=1)
            # the map is a homomorphism
            for P, Q in itertools.product(pts, pts):
              R = _add(P, Q, p, a)
              A, B, C = tw(P), tw(Q), tw(R)
              if "infinite" in (A, B, C):
                continue
              ctx.check(eadd(A, B) == C, f"{key}:oracle")
          ctx.outcome(key)
  ctx.bound(prime=p, curves=count)
  ctx.check(count > 0, f"edwards:{p}:some curve")


def real(ctx):
  """The configured curves: constants consistent, boundary multiples."""
  from jaxite.jaxite_ec.algorithm import config_file, elliptic_curve as E
  from mc import ec
  p, r = ec.P, ec.R
  c, ct = config_file.config_BLS12_377, config_file.config_BLS12_377_t
  with ctx.impl("real:config"):
    ctx.check(c["prime"] == p and c["order"] == r and ct["prime"] == p, "real:prime and order")
    x, y = c["generator"]
    ctx.check((y * y - x**3 - c["a"] * x - c["b"]) % p == 0, "real:generator on the curve")
    al, s, t = ct["alpha"], ct["s"], ct["t"]
    ctx.check((al**3 + ct["b"]) % p == 0, "real:alpha")
    ctx.check((s * s * 3 * al * al - 1) % p == 0, "real:s")
    ctx.check((ct["MA"] - 3 * al * s) % p == 0 and ct["MB"] == s, "real:Montgomery form")
    ea, ed = (ct["MA"] + 2) * pow(ct["MB"], -1, p), (ct["MA"] - 2) * pow(ct["MB"], -1, p)
    ctx.check((t * t + ea) % p == 0 and (ct["d"] * t * t - ed) % p == 0 and ct["a"] == -1, "real:Edwards form")
  ks = [1, 2, 3, 5, 0x1234567890abcdef, r - 1, r - 2, r // 2, (1 << 252) + 12345] + ([7, 11, 1 << 200, r // 3] if ctx.thorough else [])
  for kind, cls in (("affine", E.ECCSWeierstrassAffine), ("projective", E.ECCSWeierstrassProjective), ("xyzz", E.ECCSWeierstrassXYZZ),
                    ("twisted", E.ECCSTwistedEdwardsExtended)):
    key = f"real:{kind}"
    with ctx.impl(key):
      cs = cls(ct if kind == "twisted" else c)

      def mk(k, lam=1):
        x, y = ec.mult(k)
        if kind == "projective":
          return cs.generate_point([x * lam % p, y * lam % p, lam])
        if kind == "xyzz" and lam != 1:
          return cs.generate_point([x * lam**2 % p, y * lam**3 % p, lam**2 % p, lam**3 % p])
        return cs.generate_point([x, y])

      def out(q):
        if kind == "twisted":
          q = cs.convert_to_affine(q)
          return int(q[0].value), int(q[1].value)
        return _affine_of(q, kind, p)

      for j, k in itertools.product(ks, ks):
        if (j + k) % r == 0 or (j == k and kind == "xyzz" and False):
          continue
        lam = 1 if j == k and kind != "twisted" else 98765
        got = out(mk(j) + mk(k, lam))
        ctx.check(got == ec.mult((j + k) % r), f"{key}:{j:#x}+{k:#x}")
        ctx.cover(states=1, transitions=1, traces=1)
      for k in ks:
        for sh in (1, 2, 5):
          ctx.check(out(mk(k, 98765) << sh) == ec.mult((k << sh) % r), f"{key}:{k:#x}<<{sh}")
          ctx.cover(transitions=sh)
    ctx.outcome(key)


def reductions(ctx):
  """The two modular reductions written as references: matrix (lazy) and residue number system."""
  import numpy as np
  import jax.numpy as jnp
  from jaxite.jaxite_ec.algorithm import lazy_reduction as L, rns_mod_reduce as M
  from mc import ec
  for x in list(range(1 << 12)) + [(1 << k) + d for k in range(12, 400) for d in (-1, 0, 1)]:
    n = -(-x.bit_length() // 8)
    with ctx.impl("bytes", x=hex(x)):
      ctx.check(L.byte_len(x) == n, "bytes:length", x=hex(x))
      ctx.check(L.chunk_decomposition(x) == list(x.to_bytes(n, "little")), "bytes:chunks", x=hex(x))
      ctx.check(L.chunk_decomposition(x, n + 2) == list(x.to_bytes(n + 2, "little")), "bytes:padded", x=hex(x))
    ctx.cover(states=1, transitions=3, traces=1)
  for p in (ec.P, (1 << 384) - 317, (1 << 383) + 187, 65521, 251, 3, 257, (1 << 64) - 59):
    bound = p * 65536
    vals = sorted({0, 1, p - 1, p, p + 1, bound - 1, bound // 2, bound - p, 255 * p, 2 * p, (1 << (bound.bit_length() - 1)) - 1, bound // 3, p * p % bound})
    pairs = list(itertools.product(vals, vals))
    key = f"lazy:{p:#x}"
    with ctx.impl(key):
      got = L.lazy_reduction_via_matrix([x for x, _ in pairs], [y for _, y in pairs], p)
      for (x, y), g in zip(pairs, got):
        ctx.check((g - x * y) % p == 0 and 0 <= g < bound, key, a=hex(x), b=hex(y), got=hex(g))
    ctx.cover(states=len(pairs), transitions=len(pairs), traces=len(pairs))
    ctx.outcome(key)
  # residue number system
  import math
  q = ec.P
  total = q * q * 256 * 256 * 50 * 50 * 4 * 2
  for target, prec in [(1 << k, pr) for pr in (8, 16) for k in (1, 8, 15, 16, 17, 40, 100)] + [(total, 16), (1 << 600, 16), (1 << 700, 16)]:
    if prec == 8 and target > 1 << 60:
      continue
    with ctx.impl(f"moduli:{prec}"):
      ms, offs = M.find_moduli(target, prec)
      prod = math.prod(ms)
      ctx.check(prod > target, f"moduli:{prec}:range", target=hex(target))
      ctx.check(all(math.gcd(x, y) == 1 for x, y in itertools.combinations(ms, 2)), f"moduli:{prec}:coprime", target=hex(target))
      # 2^prec is the offset modulo each modulus
      ctx.check(all((2**prec - o) % m == 0 for m, o in zip(ms, offs)) and len(ms) == len(offs), f"moduli:{prec}:offsets", target=hex(target))
    ctx.cover(states=1, transitions=1, traces=1)
  with ctx.impl("rns"):
    ms, offs = M.find_moduli(total, 16)
    big_m = math.prod(ms)
    icrt = M.rns_icrt_factors_compute(big_m, ms)
    for i, f in enumerate(icrt):
      ctx.check([f % m for m in ms] == [int(i == j) for j in range(len(ms))], "rns:factors", index=i)
    vals = sorted({0, 1, 2, q - 1, q - 2, q // 2, 65535, 65536, 1 << 376, q // 3, pow(3, 777, q), pow(5, 999, q), math.prod(ms[:10]) % q, ms[0], ms[-1],
                   math.prod(ms[5:20]), q, 2 * q - 1, 255 * q, 1 << 200})
    for v in vals:
      ctx.check(M.to_rns(v, ms) == [v % m for m in ms], "rns:to", v=hex(v))
      ctx.check(M.rns_reconstruct([[v % m for m in ms]], big_m, icrt) == [v], "rns:reconstruct", v=hex(v))
    stack, cor = M.rns_coefficients_precompute(icrt, ms, 2, 16, big_m, q)
    stack, cor = jnp.array(stack, dtype=jnp.uint8), jnp.array(cor, dtype=jnp.uint16)
    pairs = list(itertools.product(vals, vals))
    xa = jnp.array([[v % m for m in ms] for v, _ in pairs], dtype=jnp.uint32)
    xb = jnp.array([[v % m for m in ms] for _, v in pairs], dtype=jnp.uint32)
    out = M.rns_mod_reduce(xa, xb, jnp.array(ms, dtype=jnp.uint32), jnp.array(offs, dtype=jnp.uint16), stack, cor, icrt, big_m)
    for (x, y), g in zip(pairs, out):
      ctx.check((int(g) - x * y) % q == 0, "rns:reduce", a=hex(x), b=hex(y))
      ctx.check(0 <= int(g) < q * 256 * 2 * 52, "rns:reduce:range", a=hex(x), b=hex(y))
    ctx.cover(states=len(pairs), transitions=len(pairs), traces=len(pairs))
    # the per-residue reduction: every value of the high half times boundary low halves, for every offset
    hi = np.arange(65536, dtype=np.uint64)
    for lo in (0, 1, 65535, 65534, 32768) + ((255, 256, 4095, 60000) if ctx.thorough else ()):
      x = ((hi << 16) + lo).astype(np.uint32)
      for o, m in zip(offs, ms):
        got = np.asarray(M.hardware_friendly_mod_reduce(jnp.asarray(x), jnp.uint16(o))).astype(np.uint64)
        ok = (got % m == x.astype(np.uint64) % m) & (got < 65536)
        ctx.check(bool(ok.all()), f"rns:residue:{m}", low=lo, high=int(np.argmin(ok)))
        ctx.cover(states=65536, transitions=65536, traces=1)
  ctx.outcome("rns")


SHARDS = {"field": field, "big": big, "weierstrass": weierstrass, "edwards": edwards, "real": real, "reductions": reductions}


def shards(tier):
  quick = tier == "quick"
  out = []
  for k in ("plain", "barrett", "montgomery"):
    for i, ps in enumerate([[3, 5, 7], [11, 13], [17, 31]] if quick else [[3, 5, 7], [11, 13], [17, 19], [23, 31], [37, 61], [67]]):
      ps = ([2] + ps) if k != "montgomery" and i == 0 else ps
      out.append((f"field@{k} {i}", {"kind": k, "primes": ps}))
  for k in ("affine", "projective", "xyzz"):
    for p in ((5, 7, 11) if quick else (5, 7, 11, 13, 17)):
      out.append((f"weierstrass@{k} {p}", {"kind": k, "p": p}))
  for p in ((13, 17) if quick else (13, 17, 29, 37)):
    out.append((f"edwards@{p}", {"p": p}))
  out += [("big", {}), ("real", {}), ("reductions", {})]
  return out
