"""Field arithmetic of jaxite_ec: limb, Barrett, lazy and residue-number arithmetic modulo p."""
import itertools

PROPERTY = "C25"
RULE = (
    "all ordered pairs of boundary operands (limb extremes, carry chains of every length, p, its "
    "neighbours and multiples, values whose product lies next to a multiple of p) for every limb "
    "operation; for the residue system every 16-bit residue of every modulus through negation and "
    "addition, all high halves x boundary low halves through the limb reduction, boundary values and "
    "all their unreduced representations through the reduction modulo p. Oracle: Python integers")


def _operands(ctx, n, top, extra=()):
  """Boundary values below `top` for n 16-bit limbs."""
  from mc import ec
  p = ec.P
  vals = {0, 1, 2, 3, 0xFFFF, 0x10000, 0x7FFF, 0x8000}
  step = 1 if ctx.thorough else 4
  for i in range(1, n):
    vals |= {(1 << 16 * i) - 1, 1 << 16 * i} if i % step == 0 or i in (1, 2, n - 1) else set()
    if i % (2 * step) == 0:
      vals |= {0xFFFF << 16 * i, (1 << 16 * i) + 1, 0x8000 << 16 * i}
  m = top
  vals |= {m - 1, m - 2, m // 2, m // 2 + 1, m // 3, 2 * m // 3, m - 0xFFFF, m - 0x10000, m - (1 << 32)}
  for b in (376, 375, 370, 368, 361):
    vals |= {1 << b, (1 << b) - 1}
  vals |= {p - 1, p, p + 1, p // 2, ec.G[0], ec.G[1], ec.D, ec.S, ec.T, 0xAAAA * ((1 << 384) - 1) // 0xFFFF % top,
           0x5555 * ((1 << 384) - 1) // 0xFFFF % top}
  vals |= set(extra)
  return sorted(v for v in vals if 0 <= v < top)


def _pairs(vals):
  a, b = zip(*itertools.product(vals, vals))
  return list(a), list(b)


def _near_multiples(p, seeds):
  """b with a*b mod p in {0.., tiny, p-1, ...} for given a: products hugging multiples of p."""
  out = []
  for a in seeds:
    ia = pow(a, -1, p)
    for t in (1, 2, p - 1, p - 2, 1 << 16, p - (1 << 16)):
      out.append((a, ia * t % p))
  return out


def limb(ctx):
  import jax
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_ec import finite_field as ff
  from mc import ec
  p = ec.P
  for n, name in ((24, "24"), (25, "25")):
    cap = 1 << (16 * n)
    vals = _operands(ctx, n, cap)
    a, b = _pairs(vals)
    A, B = ec.chunks(a, n), ec.chunks(b, n)
    ja, jb = jnp.asarray(A), jnp.asarray(B)
    idx = [i for i in range(len(a)) if a[i] + b[i] < cap]
    with ctx.impl(f"add:{name}"):
      got = ec.unchunk(ff.add_2u16(ja[np.array(idx)], jb[np.array(idx)]))
      for i, g in zip(idx, got):
        if g != a[i] + b[i]:
          ctx.fail(f"add:{name}", a=hex(a[i]), b=hex(b[i]), got=hex(g))
          break
    for c in (0, 1, 0xFFFF, cap >> 3, (1 << 16 * (n - 1)) - 1, vals[len(vals) // 2]):
      ix = [i for i in range(len(a)) if a[i] + b[i] + c < cap]
      with ctx.impl(f"add3:{name}:{c:#x}"):
        C = jnp.asarray(np.repeat(ec.chunks([c], n), len(ix), axis=0))
        got = ec.unchunk(ff.add_3u16(ja[np.array(ix)], jb[np.array(ix)], C))
        for i, g in zip(ix, got):
          if g != a[i] + b[i] + c:
            ctx.fail(f"add3:{name}", a=hex(a[i]), b=hex(b[i]), c=hex(c), got=hex(g))
            break
      ctx.cover(states=len(ix), transitions=1, traces=len(ix))
    # (subtraction: the top limb must not be full, as for every value below 2p, resp. 2p*2^16)
    ge = [i for i in range(len(a)) if a[i] >= b[i] and a[i] >> 16 * (n - 1) < 0xFFFF]
    with ctx.impl(f"sub:{name}"):
      got = ec.unchunk(ff.sub_2u16(ja[np.array(ge)], jb[np.array(ge)], chunk_num_u16=n))
      for i, g in zip(ge, got):
        if g != a[i] - b[i]:
          ctx.fail(f"sub:{name}", a=hex(a[i]), b=hex(b[i]), got=hex(g))
          break
    with ctx.impl(f"sub1d:{name}"):
      one = jax.jit(lambda x, y: ff.sub_2u16(x, y, chunk_num_u16=n))
      for i in ge[:: max(1, len(ge) // 60)]:
        g = ec.unchunk(np.asarray(one(ja[i], jb[i]))[None])[0]
        ctx.check(g == a[i] - b[i], f"sub1d:{name}", a=hex(a[i]), b=hex(b[i]), got=hex(g))
    with ctx.impl(f"compare:{name}"):
      s = np.sign(np.asarray(ff.compare_u16(ja, jb, chunk_num_u16=n)).astype(np.int64))
      w = np.array([(x > y) - (x < y) for x, y in zip(a, b)])
      ctx.equal(f"compare:{name}", w, s)
    ctx.cover(states=4 * len(a), transitions=4, traces=4 * len(a))
    # product: all 2n limbs
    if n == 24:
      with ctx.impl("mul"):
        got = ec.unchunk(ec.batched(ff.mul_2u16, A, B))
        for x, y, g in zip(a, b, got):
          if g != x * y:
            ctx.fail("mul", a=hex(x), b=hex(y), got=hex(g))
            break
      with ctx.impl("mul u8"):
        got = ec.unchunk(ec.batched(lambda x, y: ff.mul_2u16(x, y, output_dtype=jnp.uint8), A[::3], B[::3]), 8)
        ctx.check(got == [x * y for x, y in zip(a[::3], b[::3])], "mul u8")
    else:
      with ctx.impl("mul ext"):
        got = ec.unchunk(ec.batched(lambda x, y: ff.mul_2u16(x, y, chunk_num_u16=25), A, B))
        for x, y, g in zip(a, b, got):
          if g != x * y:
            ctx.fail("mul ext", a=hex(x), b=hex(y), got=hex(g))
            break
    ctx.cover(states=len(a), transitions=2, traces=len(a))
  # modular forms: 24 limbs modulo p, 25 limbs modulo p*2^16
  for n, m, kw in ((24, p, {}), (25, p << 16, {})):
    from jaxite.jaxite_ec import util
    kw = {} if n == 24 else dict(modulus_377_int_chunk=util.MODULUS_377_S16_INT_CHUNK, chunk_num_u16=25)
    vals = _operands(ctx, n, m)
    wide = _operands(ctx, n, 2 * m, [m + v for v in vals[:: 3]])
    with ctx.impl(f"reduce:{n}"):
      got = ec.unchunk(ff.cond_sub_mod_u16(jnp.asarray(ec.chunks(wide, n)), **kw))
      for x, g in zip(wide, got):
        if g != (x - m if x >= m else x):
          ctx.fail(f"reduce:{n}", a=hex(x), got=hex(g))
          break
    a, b = _pairs(vals)
    with ctx.impl(f"modsub:{n}"):
      got = ec.unchunk(ff.cond_sub_2u16(jnp.asarray(ec.chunks(a, n)), jnp.asarray(ec.chunks(b, n)), **kw))
      for x, y, g in zip(a, b, got):
        if g != (x - y) % m:
          ctx.fail(f"modsub:{n}", a=hex(x), b=hex(y), got=hex(g))
          break
    ctx.cover(states=len(wide) + len(a), transitions=2, traces=len(wide) + len(a))
    ctx.bound(**{f"operands_{n}_limbs": len(vals)})


def products(ctx, kind, part):
  """Modular multiplication."""
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_ec import finite_field as ff
  from jaxite.jaxite_ec import util
  from mc import ec
  p = ec.P
  k, of = part
  if kind == "barrett":
    vals = _operands(ctx, 24, p)
    pairs = list(itertools.product(vals, vals)) + _near_multiples(p, [v for v in vals if v][::2 if ctx.quick else 1])
    pairs = pairs[k::of]
    a, b = [x for x, _ in pairs], [y for _, y in pairs]
    with ctx.impl("mod_mul_barrett"):
      got = ec.unchunk(ec.batched(ff.mod_mul_barrett_2u16, ec.chunks(a, 24), ec.chunks(b, 24)))
      for x, y, g in zip(a, b, got):
        if g != x * y % p:
          ctx.fail("mod_mul_barrett", a=hex(x), b=hex(y), got=hex(g))
          break
    # the reduction alone: products and every neighbourhood of a multiple of p
    xs = {x * y for x, y in pairs[::7]}
    for t in vals:
      for d in (0, 1, 2, p - 1, p - 2, p // 2):
        if t * p + d < p * p:
          xs.add(t * p + d)
    xs = sorted(xs)
    with ctx.impl("barrett_reduction"):
      got = ec.unchunk(ec.batched(ff.barrett_reduction_u16x2, ec.chunks(xs, 48)))
      for x, g in zip(xs, got):
        if g != x % p:
          ctx.fail("barrett_reduction", x=hex(x), got=hex(g))
          break
    ctx.cover(states=len(pairs) + len(xs), transitions=2, traces=len(pairs) + len(xs))
  else:
    # any 25-limb operands; the result is congruent and within the lazy range
    vals = _operands(ctx, 25, 1 << 400, [(1 << 400) - 1 - (0xFFFF << 16 * i) for i in (0, 1, 12, 24)])
    pairs = (list(itertools.product(vals, vals)) + _near_multiples(p, [v for v in vals if 0 < v < p][::3]))[k::of]
    a, b = [x for x, _ in pairs], [y for _, y in pairs]
    with ctx.impl("mod_mul_lazy"):
      got = ec.unchunk(ec.batched(ff.mod_mul_lazy_2u16, ec.chunks(a, 25), ec.chunks(b, 25)))
      for x, y, g in zip(a, b, got):
        if (g - x * y) % p or g >= p << 16:
          ctx.fail("mod_mul_lazy", a=hex(x), b=hex(y), got=hex(g), in_range=g < p << 16)
          break
    ctx.cover(states=len(pairs), transitions=1, traces=len(pairs))
  ctx.outcome(kind)


def residues(ctx, part):
  """Everything that works residue by residue."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_ec import finite_field as ff
  from jaxite.jaxite_ec import util
  from mc import ec
  mods = np.array(util.MODULI, dtype=np.int64)
  r = ec.Rns(util.MODULI)
  nm = len(mods)
  every = np.repeat(np.arange(65536, dtype=np.uint16)[:, None], nm, axis=1)  # every residue in every column
  if part == "negate":
    for name in ("negate_rns_for_var_add", "negate_rns_for_var_add_zero_check"):
      fn = getattr(ff, name)
      with ctx.impl(name):
        # row i holds i + 7919 j in column j: every residue in every column, never zero in all of them
        rows = ((np.arange(65536)[:, None] + 7919 * np.arange(nm)) % 65536).astype(np.uint16)
        zero = np.zeros((65536, nm), dtype=np.uint16)
        out = np.asarray(ff.add_sub_rns_var(jnp.asarray(zero), fn(jnp.asarray(rows)))).astype(np.int64)
        c = (out + rows) % mods  # must be one multiple of p, whatever the residue
        base = c[1]
        bad = c != base
        if bad.any():
          i, j = (int(v) for v in np.argwhere(bad)[0])
          ctx.fail(name, residue=int(rows[i, j]), modulus=int(mods[j]), got=int(out[i, j]), shift=int(c[i, j]), shift_elsewhere=int(base[j]))
        v = r.back(base[None])[0]
        ctx.check(v % ec.P == 0, name + ":multiple of p", got=hex(v))
        ctx.check(v < ec.P << 17, name + ":size", multiple=v // ec.P)
        z = r.back(ff.add_sub_rns_var(fn(jnp.zeros((1, nm), jnp.uint16))))[0]
        ctx.check(z % ec.P == 0 and z < ec.P << 17, name + ":zero", got=hex(z))
      ctx.cover(states=65536 * nm, transitions=2, traces=65536 * nm)
      # as part of longer sums
      edge = [0, 1, 2, 255, 32706, 32707, 32761, 65286, 65287, 65534, 65535]
      for k in (2, 3, 4):
        combos = list(itertools.product(edge, repeat=k)) if k < 4 else list(itertools.product(edge[::2], repeat=4))
        # term t of row i, column j: the t-th entry of combination i + j
        arr = np.array(combos, dtype=np.uint16)[(np.arange(len(combos))[:, None] + np.arange(nm)) % len(combos)]
        for signs in itertools.product((0, 1), repeat=k):
          args = []
          for t in range(k):
            col = jnp.asarray(arr[:, :, t])
            args.append(fn(col) if signs[t] else col)
          with ctx.impl(f"{name}:sum"):
            out = np.asarray(ff.add_sub_rns_var(*args)).astype(np.int64)
            want = np.zeros_like(out)
            for t in range(k):
              v = arr[:, :, t].astype(np.int64)
              want = want + ((base - v) if signs[t] else v)
            diff = (out - want) % mods
            if diff.any():
              i, j = (int(v) for v in np.argwhere(diff)[0])
              ctx.fail(f"{name}:sum", terms=arr[i, j].tolist(), negated=signs, modulus=int(mods[j]), got=int(out[i, j]))
          ctx.cover(states=len(combos) * nm, transitions=1, traces=len(combos) * nm)
  elif part == "add":
    for c in (0, 1, 32767, 65535, 65286, 32706):
      with ctx.impl("add2"):
        out = np.asarray(ff.add_rns_2u16(jnp.asarray(every), jnp.full_like(jnp.asarray(every), c))).astype(np.int64)
        bad = (out - every - c) % mods != 0
        if bad.any():
          i, j = (int(v) for v in np.argwhere(bad)[0])
          ctx.fail("add2", a=i, b=c, modulus=int(mods[j]), got=int(out[i, j]))
      with ctx.impl("add3"):
        x = jnp.asarray(every)
        out = np.asarray(ff.add_rns_3u16(x, x, jnp.full_like(x, c))).astype(np.int64)
        bad = (out - 2 * every.astype(np.int64) - c) % mods != 0
        if bad.any():
          i, j = (int(v) for v in np.argwhere(bad)[0])
          ctx.fail("add3", a=i, c=c, modulus=int(mods[j]), got=int(out[i, j]))
      ctx.cover(states=2 * 65536 * nm, transitions=2, traces=2 * 65536 * nm)
    # long sums
    for k in (1, 5, 8, 16, 100, 255):
      for v in (0, 1, 32707, 65287, 65535):
        with ctx.impl("long sum"):
          col = jnp.asarray(np.full((1, nm), v, dtype=np.uint16))
          out = np.asarray(ff.add_sub_rns_var(*([col] * k))).astype(np.int64)
          ctx.check(not ((out - k * v) % mods).any(), "long sum", terms=k, value=v, got=out[0, :6])
        ctx.cover(states=1, transitions=1, traces=1)
    for c in (0, 1, 2, 3, 4095, 8192, 16383):
      with ctx.impl("constant"):
        ctx.equal(f"constant:{c}", np.full(nm, c), np.asarray(ff.rns_constant(c)).astype(np.int64))
      ctx.cover(states=1, transitions=1, traces=1)
  elif part == "limb":
    # 32-bit values: every high half, boundary low halves, in every column
    lows = [0, 1, 2, 254, 255, 256, 32706, 32767, 32768, 65280, 65287, 65534, 65535]
    fn = jax.jit(lambda x: ff.moduli_rns_red_internal_2u16(x))
    hi = np.arange(65536, dtype=np.uint32) << 16
    for lo in lows:
      x = np.repeat((hi | lo)[:, None], nm, axis=1)
      with ctx.impl("limb reduction"):
        out = np.asarray(fn(jnp.asarray(x))).astype(np.int64)
        bad = (out - x.astype(np.int64)) % mods != 0
        if bad.any():
          i, j = (int(v) for v in np.argwhere(bad)[0])
          ctx.fail("limb reduction", x=int(x[i, j]), modulus=int(mods[j]), got=int(out[i, j]))
      ctx.cover(states=x.size, transitions=1, traces=x.size)
    # every low half with boundary high halves
    for h in (0, 1, 2, 255, 256, 257, 32767, 32768, 65279, 65286, 65533, 65534, 65535):
      x = np.repeat((np.arange(65536, dtype=np.uint32) | np.uint32(h << 16))[:, None], nm, axis=1)
      with ctx.impl("limb reduction"):
        out = np.asarray(fn(jnp.asarray(x))).astype(np.int64)
        bad = (out - x.astype(np.int64)) % mods != 0
        if bad.any():
          i, j = (int(v) for v in np.argwhere(bad)[0])
          ctx.fail("limb reduction", x=int(x[i, j]), modulus=int(mods[j]), got=int(out[i, j]))
      ctx.cover(states=x.size, transitions=1, traces=x.size)
    # products of residues
    for c in (0, 1, 2, 255, 256, 32707, 32768, 65287, 65534, 65535):
      with ctx.impl("residue product"):
        out = np.asarray(ff.mul_unreduced_rns_2u16(jnp.asarray(every), jnp.full_like(jnp.asarray(every), c))).astype(np.int64)
        bad = (out - every.astype(np.int64) * c) % mods != 0
        if bad.any():
          i, j = (int(v) for v in np.argwhere(bad)[0])
          ctx.fail("residue product", a=i, b=c, modulus=int(mods[j]), got=int(out[i, j]))
      ctx.cover(states=every.size, transitions=1, traces=every.size)
    if ctx.thorough:
      # the whole 32-bit space, one column per modulus in turn
      step = 1 << 20
      for base in range(0, 1 << 32, step * 16):
        x = np.repeat((np.arange(base, base + step, dtype=np.int64)[:, None]).astype(np.uint32), nm, axis=1)
        out = np.asarray(fn(jnp.asarray(x))).astype(np.int64)
        bad = (out - x.astype(np.int64)) % mods != 0
        ctx.check(not bad.any(), "limb reduction:space", base=base)
        ctx.cover(states=x.size, transitions=1, traces=x.size)


def reduction(ctx, part):
  """RNS product and reduction modulo p, on boundary values and unreduced representations."""
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_ec import finite_field as ff
  from jaxite.jaxite_ec import util
  from mc import ec
  r = ec.Rns(util.MODULI)
  p, m = ec.P, r.m
  k, of = part
  top = 6 * m // 10
  vals = {0, 1, 2, p - 1, p, p + 1, p * p, p * p - 1, top - 1, m // 2, m // 3, m // 2 - 1}
  for i in range(0, top.bit_length()):
    vals |= {1 << i, (1 << i) - 1}
  for q, f in zip(r.moduli, r.f):
    h = m // q
    for t in (1, 2, q // 4, q // 2):
      vals |= {t * h % m, t * h - 1, t * h + 1}
    vals |= {q, q * p, f, q - 1}
  for t in (1, 2, 255, 256, 51000, 102400, 65536, 307200, 358000):
    vals |= {t * p, t * p - 1, t * p * p % m, (t * p) ** 2, (t * p) ** 2 - 1}
  vals = sorted(v for v in vals if 0 <= v < top)[k::of]
  for name in ("least", "greatest"):
    arr = r.to(vals)
    if name == "greatest":  # unreduced but equal residues
      big = arr.astype(np.int64)
      for j, q in enumerate(r.moduli):
        while q < 65536 and (big[:, j] + q < 65536).any():
          big[:, j] = np.where(big[:, j] + q < 65536, big[:, j] + q, big[:, j])
      arr = big.astype(np.uint16)
    with ctx.impl(f"mod_red:{name}"):
      out = r.back(ff.mod_red_rns_2u16(jnp.asarray(arr)))
      for x, g in zip(vals, out):
        if (g - x) % p or g >= p << 16:
          ctx.fail(f"mod_red:{name}", x=hex(x), got=hex(g), multiple=g // p)
          break
    ctx.cover(states=len(vals), transitions=1, traces=len(vals))
  # products of operands as they occur: up to 300000 p
  ops = _operands(ctx, 24, p)[:: 2 if ctx.quick else 1]
  ops += [v + t * p for v in (0, 1, p - 1, p // 2) for t in (1, 6400, 51000, 102400, 204800)]
  # operands with zero residues
  ops += [q * 7 for q in r.moduli[::5]] + [r.moduli[0] * r.moduli[1] * r.moduli[42]]
  pairs = list(itertools.product(ops, ops))[k::of]
  a, b = r.to([x for x, _ in pairs]), r.to([y for _, y in pairs])
  with ctx.impl("mod_mul"):
    out = r.back(ff.mod_mul_rns_2u16(jnp.asarray(a), jnp.asarray(b)))
    for (x, y), g in zip(pairs, out):
      if (g - x * y) % p or g >= p << 16:
        ctx.fail("mod_mul", a=hex(x), b=hex(y), got=hex(g), multiple=g // p)
        break
  ctx.cover(states=len(pairs), transitions=1, traces=len(pairs))
  # tables for other moduli
  for q in ((1 << 255) - 19, (1 << 377) - 31, 1000003):
    with ctx.impl(f"other modulus:{q}"):
      mat = util.construct_rns_matrix(q)
      xs = [x for x in vals if x < q * q][:: 3]
      out = r.back(ff.mod_red_rns_2u16(jnp.asarray(r.to(xs)), rns_mat=mat))
      ctx.check(all((g - x) % q == 0 for x, g in zip(xs, out)), f"other modulus:{q}")
    ctx.cover(states=len(xs), transitions=1, traces=len(xs))


SHARDS = {"limb": limb, "products": products, "residues": residues, "reduction": reduction}


def shards(tier):
  n = 2
  return ([("limb", {})] + [(f"products@{k}{i}", {"kind": k, "part": (i, n)}) for k in ("barrett", "lazy") for i in range(n)]
          + [(f"residues@{p}", {"part": p}) for p in ("negate", "add", "limb")]
          + [(f"reduction@{i}", {"part": (i, n)}) for i in range(n)])
