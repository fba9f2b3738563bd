"""Encoding tolerates every error below half a message step."""

PROPERTY = "C05"
RULE = (
    "every split of every plaintext width up to the bound into padding, message and "
    "error bits; every message; every error in [-step/2, step/2) (all of them for the "
    "narrow widths, a boundary alphabet for 16 and 32 bits): decoding the perturbed "
    "encoding gives the message back, noise extraction gives the error back, and "
    "out-of-range messages are rejected")


def _params(t_list):
  for t in t_list:
    for m in range(1, t + 1):
      for p in range(0, t - m + 1):
        yield t, m, p


def scalar(ctx, widths):
  """Through the scalar API exactly as users call it."""
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_cggi import encoding
  for t, m, p in _params(widths):
    prm = encoding.EncodingParameters(
        total_bit_length=t, message_bit_length=m, padding_bit_length=p)
    eb = t - m - p
    half = (1 << eb) >> 1
    for msg in range(1 << m):
      k0 = f"scalar:{t},{m},{p}:{msg}"
      with ctx.impl(k0):
        enc = encoding.encode(msg, prm)
        ctx.check(int(enc) == msg << eb, k0 + ":encode", got=int(enc))
        for e in range(-half, max(half, 1)):
          pt = ((msg << eb) + e) % (1 << t)
          got = encoding.decode(jnp.uint32(pt), prm)
          ctx.check(int(got) == msg, f"{k0}:e{e}:decode", got=int(got))
          ctx.cover(states=1, transitions=1, traces=1)
        e = half // 2
        got = encoding.decode_without_removing_padding(jnp.uint32((msg << eb) + e), prm)
        ctx.check(int(got) == msg, k0 + ":padded", got=int(got))
        if p:
          v = msg | (((1 << p) - 1) << m)
          got = encoding.decode_without_removing_padding(jnp.uint32(v << eb), prm)
          ctx.check(int(got) == v, k0 + ":padding kept", got=int(got))
          ctx.check(int(encoding.decode(jnp.uint32(v << eb), prm)) == msg,
                    k0 + ":padding dropped")
    for bad in ((1 << m), (1 << m) + 1, -1):
      if bad < (1 << 32):
        ctx.raises(f"scalar:{t},{m},{p}:reject{bad}", ValueError,
                   lambda: encoding.encode(bad, prm))
    ctx.raises(f"scalar:{t},{m},{p}:tp reject", ValueError, lambda: encoding.encode(
        jnp.array([1 << (m + p)], dtype=jnp.uint32), prm, True))
    with ctx.impl(f"scalar:{t},{m},{p}:tp accept"):
      arr = np.arange(1 << (m + p), dtype=np.uint32)
      ctx.equal(f"scalar:{t},{m},{p}:tp accept", arr << np.uint32(eb) if eb < 32 else arr,
                encoding.encode(jnp.asarray(arr), prm, True))
    ctx.cover(states=4, transitions=5, traces=1)
    ctx.outcome((t, m, p))
  ctx.sample({"widths": list(widths)})


def vector(ctx, widths):
  """Rounding on whole arrays, every plaintext of a width."""
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_cggi import encoding
  for t, m, p in _params(widths):
    prm = encoding.EncodingParameters(t, m, p)
    eb = t - m - p
    x = np.arange(1 << t, dtype=np.uint64)
    want = ((x + ((1 << eb) >> 1)) >> eb << eb).astype(np.uint32)
    with ctx.impl(f"vector:{t},{m},{p}"):
      ctx.equal(f"vector:{t},{m},{p}", want,
                encoding.remove_noise(jnp.asarray(x.astype(np.uint32)), prm))
    ctx.cover(states=1 << t, transitions=1, traces=1)
    ctx.outcome((t, eb))
  for lg in range(1, 31):
    a = []
    for k in range(0, 33):
      for d in (-2, -1, 0, 1, 2):
        a.append(((1 << k) + d) % (1 << 32))
        a.append((3 * (1 << k) + d) % (1 << 32))
        a.append(((1 << k) + (1 << lg >> 1) + d) % (1 << 32))
    x = np.array(sorted(set(a)), dtype=np.uint64)
    want = ((x + ((1 << lg) >> 1)) >> lg << lg) % (1 << 32)
    with ctx.impl(f"round32:{lg}"):
      ctx.equal(f"round32:{lg}", want.astype(np.uint32),
                encoding.round_to_power_of_2(jnp.asarray(x.astype(np.uint32)), lg))
    ctx.cover(states=len(x), transitions=1, traces=1)


def wide(ctx, part):
  """16- and 32-bit plaintexts: every message, boundary errors."""
  import jax.numpy as jnp
  from jaxite.jaxite_cggi import encoding
  cases = []
  for t in (16, 31, 32):
    for m in (1, 2, 3, 4, 5):
      for p in (0, 1, 2):
        cases.append((t, m, p))
  for t, m, p in cases[part::4]:
    prm = encoding.EncodingParameters(t, m, p)
    ctx.check(prm.error_bit_length == t - m - p and prm.message_max == 2**m - 1 and
              prm.message_min == 0, f"wide:{t},{m},{p}:params")
    eb = t - m - p
    half = 1 << (eb - 1)
    errs = sorted({0, 1, -1, 5, -7, half - 1, -half, -half + 1, half // 2, -(half // 2),
                   half - (half >> 3), -(half - (half >> 5))})
    for msg in range(1 << m):
      for e in errs:
        key = f"wide:{t},{m},{p}:{msg}:e{e}"
        pt = ((msg << eb) + e) % (1 << t)
        with ctx.impl(key):
          got = encoding.decode(jnp.uint32(pt), prm)
          ctx.check(int(got) == msg, key, got=int(got))
          noise = encoding.extract_noise(jnp.uint32(pt), prm)
          ctx.check(int(noise) == e, key + ":noise", got=int(noise))
        ctx.cover(states=1, transitions=2, traces=1)
        ctx.outcome((msg, e > 0))


def invalid(ctx):
  from jaxite.jaxite_cggi import encoding
  for t in range(-1, 6):
    for m in range(-1, 6):
      for p in range(-1, 6):
        key = f"params:{t},{m},{p}"
        good = t >= 1 and m >= 1 and p >= 0 and m + p <= t
        if good:
          with ctx.impl(key):
            prm = encoding.EncodingParameters(t, m, p)
            ctx.check(prm.error_bit_length == t - m - p, key)
        else:
          ctx.raises(key, ValueError, lambda: encoding.EncodingParameters(t, m, p))
        ctx.cover(states=1, transitions=1, traces=1)
        ctx.outcome(good)


SHARDS = {"scalar": scalar, "vector": vector, "wide": wide, "invalid": invalid}


def shards(tier):
  top = 7 if tier == "quick" else 10
  out = [(f"scalar@{w}", {"widths": [w]}) for w in range(top, 0, -1)]
  out += [(f"vector@{i}", {"widths": [w]}) for i, w in enumerate(
      range(8, 13 if tier == "quick" else 17))]
  out += [(f"wide@{i}", {"part": i}) for i in range(4)]
  out += [("invalid", {})]
  return out
