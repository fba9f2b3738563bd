"""Gadget decompositions are small, and recompose to the value."""
import itertools

PROPERTY = "C06"
RULE = (
    "every (base, levels, width) configuration in bounds x every value of the width "
    "(narrow widths) or every value of a digit/carry alphabet per digit position "
    "(32 bits); digits compared with an integer reference, range [-B/2, B/2), "
    "recomposition error at most what balanced digits can leave out (half a unit "
    "of the last digit kept, times B/(B-1))")


def ref_unsigned(x, b, l, t):
  return [(x >> (t - (i + 1) * b)) & ((1 << b) - 1) for i in range(l)]


def judge_signed(ctx, key, xs, digs, b, l, t):
  """Vectorised: range and closeness of signed digits (uint32, two's complement)."""
  import numpy as np
  d = np.asarray(digs)
  if d.shape != (len(xs), l):
    ctx.fail(key, problem="shape", got=d.shape, want=(len(xs), l))
    return
  d = d.astype(np.uint32).astype(np.int32).astype(np.int64)
  half = (1 << b) // 2
  bad = (d < -half) | (d >= half)
  if bad.any():
    i = int(np.nonzero(bad)[0][0])
    ctx.fail(key, problem="digit outside [-B/2, B/2)", x=int(xs[i]), digits=d[i].tolist())
    return
  rec = np.zeros(len(xs), dtype=np.int64)
  for i in range(l):
    rec += d[:, i] << (t - (i + 1) * b)
  mod = 1 << t
  err = (rec - xs.astype(np.int64)) % mod
  err = np.minimum(err, mod - err)
  limit = bound(b, l, t)
  if (err > limit).any():
    i = int(np.argmax(err))
    ctx.fail(key, problem="recomposition error too large", x=int(xs[i]),
             digits=d[i].tolist(), error=int(err[i]), bound=limit)


def bound(b, l, t):
  """What balanced digits leave out: dropped digits are each at least -B/2, and the
  bits below the last whole digit are rounded to nearest."""
  r = t % b
  unit = 1 << (t - l * b)
  base = 1 << b
  return (base // 2) * (unit - (1 << r)) // (base - 1) + ((1 << r) >> 1)


def configs(t):
  for b in range(1, min(t, 16) + 1):
    for l in range(1, t // b + 1):
      yield b, l


def narrow(ctx, widths, part=0, parts=1):
  import jax
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_cggi import decomposition as dec
  todo = [(t, b, l) for t in widths for b, l in configs(t)][part::parts]
  for t, b, l in todo:
    xs = np.arange(1 << t, dtype=np.uint64)
    jx = jnp.asarray(xs.astype(np.uint32))
    key = f"narrow:t{t}b{b}l{l}"
    with ctx.impl(key + ":decompose"):
      got = jax.vmap(lambda x: dec.decompose(x, b, l, t))(jx)
      want = np.stack([(xs >> np.uint64(t - (i + 1) * b)) & np.uint64((1 << b) - 1)
                       for i in range(l)], axis=1)
      ctx.equal(key + ":decompose", want.astype(np.uint32), got)
      back = jax.vmap(lambda d: dec.recompose(d, b, t))(got)
      top = (xs >> np.uint64(t - l * b)) << np.uint64(t - l * b)
      ctx.equal(key + ":recompose", top.astype(np.uint32), back)
    with ctx.impl(key + ":signed"):
      sd = jax.vmap(lambda x: dec.signed_decomposition(x, b, l, t))(jx)
      judge_signed(ctx, key + ":signed", xs, sd, b, l, t)
    with ctx.impl(key + ":summands"):
      s = dec.recomposition_summands(jnp.uint32(1), b, l, t)
      ctx.equal(key + ":summands", [1 << (t - (i + 1) * b) for i in range(l)], s)
    ctx.cover(states=len(xs), transitions=4, traces=2 * len(xs))
    ctx.outcome((t, b, l))


def full(ctx, bases):
  """32 bits: every combination of extreme digits around every carry chain."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_cggi import decomposition as dec
  t = 32
  for b in bases:
    n = t // b
    r = t % b
    B = 1 << b
    alpha = sorted({0, 1, B // 2 - 1, B // 2, B - 1} & set(range(B)))
    xs = set()
    # all digit words of length 5 over the alphabet at every position, with the
    # digits above and below all equal to each member of a small alphabet
    win = min(n, 5)
    for pos in range(n - win + 1):
      for word in itertools.product(alpha, repeat=win):
        for fill in (0, B // 2, B - 1):
          x = 0
          for i in range(n):
            dgt = word[i - pos] if pos <= i < pos + win else fill
            x = (x << b) | dgt
          for low in sorted({0, (1 << r) - 1, (1 << r) >> 1}):
            xs.add(((x << r) | low) & 0xFFFFFFFF)
    for k in range(33):
      for dl in (-2, -1, 0, 1, 2):
        xs.add(((1 << k) + dl) & 0xFFFFFFFF)
    if ctx.quick and len(xs) > 60000:
      xs = sorted(xs)[:: len(xs) // 60000 + 1]
    xs = np.array(sorted(xs), dtype=np.uint64)
    jx = jnp.asarray(xs.astype(np.uint32))
    for l in range(1, n + 1):
      if ctx.quick and b == 1 and l not in (1, 2, 7, 16, 31, 32):
        continue
      key = f"full:b{b}l{l}"
      with ctx.impl(key):
        sd = jax.vmap(lambda x: dec.signed_decomposition(x, b, l))(jx)
        judge_signed(ctx, key + ":signed", xs, sd, b, l, t)
        got = jax.vmap(lambda x: dec.decompose(x, b, l))(jx)
        want = np.stack([(xs >> np.uint64(t - (i + 1) * b)) & np.uint64(B - 1)
                         for i in range(l)], axis=1)
        ctx.equal(key + ":decompose", want.astype(np.uint32), got)
        back = jax.vmap(lambda d: dec.recompose(d, b))(got)
        top = (xs >> np.uint64(t - l * b)) << np.uint64(t - l * b)
        ctx.equal(key + ":recompose", top.astype(np.uint32), back)
        # signed digits recompose too
        back = np.asarray(jax.vmap(lambda d: dec.recompose(d, b))(sd)).astype(np.int64)
        err = (back - xs.astype(np.int64)) % (1 << 32)
        err = np.minimum(err, (1 << 32) - err)
        ctx.check(err.max() <= bound(b, l, t), key + ":signed recompose",
                  worst=int(err.max()))
        for v in (0, 1, 2, B - 1, 0xFFFFFFFF):
          s = dec.recomposition_summands(jnp.uint32(v), b, l)
          ctx.equal(key + f":summands:{v}",
                    [(v << (t - (i + 1) * b)) & 0xFFFFFFFF for i in range(l)], s)
      ctx.cover(states=len(xs), transitions=5, traces=3 * len(xs))
      ctx.outcome((b, l))
    ctx.sample({"base": b, "values": len(xs)})


def ciphertexts(ctx):
  """The ciphertext layout: polynomial-major, then level, then coefficient."""
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_cggi import decomposition as dec
  for k1, n, b, l in itertools.product((1, 2, 3, 4), (1, 4, 5), (2, 4, 5, 8), (1, 3, 6)):
    if b * l > 32:
      continue
    key = f"ct:{k1}x{n}b{b}l{l}"
    ct = (np.arange(k1 * n, dtype=np.uint64) * 0x9E3779B1 + 0x7FFFFFF8) & 0xFFFFFFFF
    with ctx.impl(key):
      out = np.asarray(dec.decompose_rlwe_ciphertext(
          jnp.asarray(ct.astype(np.uint32).reshape(k1, n)),
          dec.DecompositionParameters(b, l)))
      if ctx.check(out.shape == (k1 * l, n), key, problem="shape", got=out.shape):
        digs = out.reshape(k1, l, n).transpose(0, 2, 1).reshape(k1 * n, l)
        judge_signed(ctx, key, ct, digs, b, l, 32)
    ctx.cover(states=1, transitions=1, traces=1)
    ctx.outcome((k1, n))


def gadget(ctx):
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_cggi import decomposition as dec
  for b, l in itertools.product((1, 2, 3, 4, 5), (1, 2, 3, 4)):
    t = b * l
    if t > 16:
      continue
    prm = dec.DecompositionParameters(b, l, t)
    for vl in (1, 2, 3):
      key = f"gadget:b{b}l{l}v{vl}"
      with ctx.impl(key):
        g = np.asarray(dec.gadget_matrix(prm, vl, t))
        want = np.zeros((vl, vl * l))
        for i in range(vl):
          for j in range(l):
            want[i, i * l + j] = 2.0 ** (-b * (j + 1))
        ctx.equal(key, want, g.astype(np.float64))
      ctx.cover(states=1, transitions=1, traces=1)
    q = 1 << t
    xs = range(-(q // 2), q // 2) if t <= 8 else sorted(
        {v for k in range(t) for s in (1, -1) for d in (-1, 0, 1)
         for v in [s * (1 << k) + d] if -(q // 2) <= v < q // 2})
    xs = list(xs)
    key = f"inverse:b{b}l{l}"
    with ctx.impl(key):
      # exact multiples of 1/q, and values strictly between two of them
      for shift in (0.0, 0.25, -0.25):
        v = np.array([(x + shift) / q for x in xs], dtype=np.float32)
        out = np.asarray(dec.inverse_gadget(jnp.asarray(v), prm, t)).reshape(len(xs), l)
        want = [ref_unsigned(x % q, b, l, t) for x in xs]
        ctx.equal(f"{key}:{shift}", np.array(want, dtype=np.uint32), out)
        ctx.cover(states=len(xs), transitions=1, traces=len(xs))
    ctx.outcome((b, l))
  # word widths beyond base**levels, and the default width
  for b, l in ((1, 1), (1, 3), (2, 2), (4, 2), (8, 1), (8, 2), (4, 3), (4, 8), (8, 4), (16, 2), (1, 32), (16, 1), (2, 16)):
    for t in (b * l + 1, 2 * b * l, 31, 32, None):
      if t is not None and not b * l <= t <= 32:
        continue
      prm = dec.DecompositionParameters(b, l) if t is None else dec.DecompositionParameters(b, l, t)
      width = () if t is None else (t,)
      key = f"wide:b{b}l{l}t{t}"
      with ctx.impl(key):
        g = np.asarray(dec.gadget_matrix(prm, 2, *width)).astype(np.float64)
        want = np.kron(np.eye(2), [[2.0 ** (-b * (j + 1)) for j in range(l)]])
        ctx.equal(key, want, g)
        q = 1 << (b * l)
        xs = sorted({v for k in range(min(b * l, 23)) for s in (1, -1) for d in (-1, 0, 1)
                     for v in [s * (1 << k) + d] if -(q // 2) <= v < (q + 1) // 2})
        v = np.array([x / q for x in xs], dtype=np.float32)
        out = np.asarray(dec.inverse_gadget(jnp.asarray(v), prm, *width))
        ctx.equal(key + ":inverse", np.array([ref_unsigned(x % q, b, l, b * l) for x in xs]).flatten(), out)
        ctx.cover(states=len(xs) + 1, transitions=2, traces=len(xs) + 1)
  for b, l, t in ((4, 9, 32), (3, 3, 8), (8, 5, 32)):
    ctx.raises(f"gadget:reject:b{b}l{l}t{t}", ValueError, lambda: dec.gadget_matrix(
        dec.DecompositionParameters(b, l, t), 2, t))


SHARDS = {"narrow": narrow, "full": full, "ciphertexts": ciphertexts, "gadget": gadget}


def shards(tier):
  out = [("ciphertexts", {}), ("gadget", {})]
  out += [("narrow@small", {"widths": list(range(1, 8))})]
  out += [(f"narrow@{w}", {"widths": [w]}) for w in (8, 9, 10)]
  out += [(f"narrow@12p{i}", {"widths": [12], "part": i, "parts": 2}) for i in range(2)]
  if tier == "thorough":
    out += [(f"narrow@16p{i}", {"widths": [16], "part": i, "parts": 4}) for i in range(4)]
  out += [(f"full@{i}", {"bases": bs}) for i, bs in enumerate(
      ([1], [4], [8, 16], [2], [3], [5, 7], [6, 10, 11], [9, 12, 13, 15, 14]))]
  return out
