"""CKKS modular reduction and byte-split matrix products equal exact arithmetic."""
import itertools

PROPERTY = "C14"
RULE = (
    "Barrett reduction: every modulus 2..M and every z < m^2 for small moduli, and for "
    "every modulus size up to 31 bits (powers of two +-1, every NTT prime shape, moduli whose "
    "reciprocal is closest to an integer) every z around every multiple q*m that is a quotient "
    "boundary of the estimate; byte-split products: every byte pattern alphabet x every "
    "operand position, sums against Python integers")


def barrett(ctx, part):
  import jax.numpy as jnp
  import numpy as np
  from mc import ckks as ck
  from jaxite.jaxite_ckks import barrett as br
  if part == "small":
    top = 128 if ctx.quick else 1024
    mods = list(range(2, top))
    ms = np.array(mods, dtype=np.int64)
    z = np.arange((top - 1) ** 2, dtype=np.uint64)
    block = 1 << 17
    with ctx.impl("barrett:small"):
      for s in range(0, len(mods), 32):
        sub = mods[s:s + 32]
        c = br.precompute_barrett_constants(sub)
        zz = z[: sub[-1] ** 2]
        for t in range(0, len(zz), block):
          blk = zz[t:t + block]
          got = np.asarray(br.modular_reduction(jnp.asarray(np.resize(blk, block))[:, None], c))[: len(blk)]
          want = blk[:, None] % np.array(sub, dtype=np.uint64)[None, :]
          ok = (got == want) | (blk[:, None] >= np.array(sub, dtype=np.uint64)[None, :] ** 2)
          if not ok.all():
            i, j = np.argwhere(~ok)[0]
            ctx.fail("barrett:small", m=sub[j], z=int(blk[i]), got=int(got[i, j]), want=int(want[i, j]))
          ctx.cover(states=int(ok.size), transitions=1, traces=int(ok.size))
    ctx.bound(all_moduli_below=top, all_z="z < m^2")
    ctx.outcome("small")
    return
  mods = set()
  for k in range(8, 32):
    mods |= {(1 << k) - 1, (1 << k) + 1, (1 << k) - 3, (1 << k) + 3, 3 << (k - 1), 1 << k}
    for n in (4, 64, 1024, 8192):
      if k > n.bit_length() + 2:
        try:
          mods |= set(ck.primes(n, k, 2)) | set(ck.primes(n, k - 1, 1, up=True))
        except ValueError:
          pass
  # moduli for which 2^s / m lies just below an integer for some shift s (m divides 2^s + 1 or + 3)
  for s in range(16, 63):
    for off in (1, 3, 5):
      v = (1 << s) + off
      for d in range(3, 4000, 2):
        if v % d == 0:
          for x in (d, v // d):
            if 256 <= x < 1 << 31:
              mods.add(x)
  mods = sorted(m for m in mods if 2 <= m < 1 << 31)
  for grp in range(0, len(mods), 64):
    sub = mods[grp:grp + 64]
    rows = []
    for m in sub:
      zs = {0, 1, m * m - 1, m * m - m, m * m - m - 1, (m - 1) * (m - 1)}
      quot = {1, 2, 3, m // 2, m // 3, m - 1, m - 2, m // 2 + 1}
      for b in range(1, m.bit_length() + 1):
        quot |= {(1 << b) - 1, 1 << b, (1 << b) + 1, (m * 3 >> b), (m * 5 >> b) + 1}
      for w in range(30, 64, 2):
        quot |= {(1 << w) // m, ((1 << w) // m) + 1}
      for q in quot:
        if 0 <= q <= m:
          zs |= {q * m - 1, q * m, q * m + 1, q * m + m // 2}
      for b in range(2 * m.bit_length()):
        zs |= {(1 << b) - 1, 1 << b}
      rows.append(sorted(x for x in zs if 0 <= x < m * m))
    width = max(map(len, rows))
    arr = np.array([r + [0] * (width - len(r)) for r in rows], dtype=np.uint64).T
    with ctx.impl("barrett:wide", moduli=sub[:4]):
      got = np.asarray(br.modular_reduction(jnp.asarray(arr), br.precompute_barrett_constants(sub)))
      ctx.check(got.dtype == np.uint32 and got.shape == arr.shape, "barrett:wide", problem="type", dtype=str(got.dtype))
      want = arr % np.array(sub, dtype=np.uint64)
      bad = got != want
      if bad.any():
        i, j = np.argwhere(bad)[0]
        ctx.fail("barrett:wide", m=sub[j], z=int(arr[i, j]), got=int(got[i, j]), want=int(want[i, j]))
    ctx.cover(states=sum(map(len, rows)), transitions=1, traces=sum(map(len, rows)))
  # a single modulus passed as a number; slices
  with ctx.impl("barrett:forms"):
    c1 = br.precompute_barrett_constants(12289)
    ctx.equal("barrett:forms", [5 % 12289, 12288 * 12288 % 12289],
              np.asarray(br.modular_reduction(jnp.asarray([5, 12288 ** 2], dtype=jnp.uint64), c1)).reshape(-1))
    full = [17, 97, 12289, 65537, 1073741441]
    c = br.precompute_barrett_constants(full)
    for a, b in itertools.combinations(range(len(full) + 1), 2):
      z = np.array([m * m - 2 for m in full[a:b]], dtype=np.uint64)
      ctx.equal(f"barrett:slice:{a}:{b}", z % np.array(full[a:b], dtype=np.uint64),
                br.modular_reduction(jnp.asarray(z), c.slice(slice(a, b))))
      ctx.cover(states=1, transitions=1, traces=1)
  ctx.bound(moduli=len(mods))
  ctx.outcome("wide")


def bat(ctx):
  """sum_k lhs[..k..] * rhs[..k..] from bytes, modulo nothing / modulo m."""
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_ckks import bat_utils
  from mc import ckks as ck
  words = [0, 1, 255, 256, 0xFF00, 0xFFFF, 0x10000, 0xFF0000, 0x1000000, 0x7F000000, 0x3FFFFFFF, 0x12345678, 0x01010101]
  for mods in ([17], [97, 193], [12289, 65537, 786433], ck.primes(8, 28, 2), ck.primes(8, 30, 3), ck.primes(8, 31, 2)):
    m = len(mods)
    q = np.array(mods, dtype=object)
    for rows, cols in ((1, 1), (2, 3), (4, 4), (3, 8), (64, 1)):
      mat = np.array([[[words[(3 * i + 5 * j + t) % len(words)] % qq if (i + j) % 4 else qq - 1 for t, qq in enumerate(mods)]
                       for j in range(cols)] for i in range(rows)], dtype=np.uint64)
      key = f"bat:{mods}:{rows}x{cols}"
      with ctx.impl(key):
        raw = np.asarray(bat_utils.basis_aligned_transformation(jnp.asarray(mat), mods))
        ctx.check(raw.shape == (4, rows, cols, m, 4) and raw.dtype == np.uint8, key, problem="shape", got=raw.shape)
        val = sum(raw[..., p].astype(object) << (8 * p) for p in range(4))
        for sh in range(4):
          ctx.equal(key + ":shift", (mat.astype(object) << (8 * sh)) % q, val[sh], shift=sh)
        rhs = jnp.asarray(raw).transpose(1, 0, 2, 4, 3)  # (rows, shift, cols, byte, mod)
        for w in range(len(words)):
          vec = np.array([[[words[(w + 2 * i + j + t) % len(words)] % qq if (i + w) % 3 else qq - 1 for t, qq in enumerate(mods)]
                           for j in range(2)] for i in range(rows)], dtype=np.uint32)  # (rows, batch, m)
          got = np.asarray(bat_utils.matmul_bat_einsum(jnp.asarray(vec), rhs, "rbmq,rqcpm->cbmp"))
          want = np.einsum("rbm,rcm->cbm", vec.astype(object), mat.astype(object))
          ctx.equal(key, want % q, got.astype(object) % q, word=w)
          # the unreduced value must stay small enough to be reduced exactly
          ctx.check((got.astype(object) <= rows * 4 * 255 * (q - 1)).all(), key, problem="unreduced value too large")
          ctx.cover(states=1, transitions=1, traces=1)
        # the bytes of the left side merged into the contracted dimension
        merged = jnp.asarray(raw[:, :, 0].transpose(1, 0, 2, 3).reshape(4 * rows, m, 4))
        for w in range(0, len(words), 3):
          for shape in ((rows,), (2, rows), (2, 1, 3, rows)):
            vec = np.resize(np.array(words[w:] + words[:w], dtype=np.uint32), shape)
            got = np.asarray(bat_utils.matmul_bat_einsum(jnp.asarray(vec), merged, "...q,qpb->...pb", merge_byte_dimension=True))
            want = vec.astype(object) @ mat[:, 0].astype(object)
            ctx.equal(key + ":merged", want % q, got.astype(object) % q, word=w, shape=shape)
            ctx.cover(states=1, transitions=1, traces=1)
      ctx.outcome((tuple(mods), rows, cols))


def number_theory(ctx):
  from jaxite.jaxite_ckks import math as cm
  from jaxite.jaxite_ckks import rns_utils as ru
  from mc import ckks as ck
  top = 2000 if ctx.quick else 20000
  for n in range(2, top):
    with ctx.impl("factors"):
      got = cm.prime_factors(n)
      want, x, p = set(), n, 2
      while p * p <= x:
        while x % p == 0:
          want.add(p)
          x //= p
        p += 1
      if x > 1:
        want.add(x)
      ctx.check(got == want, "factors", n=n, got=got)
    ctx.cover(states=1, transitions=1, traces=1)
  ps = [p for p in range(3, 800) if ck.is_prime(p)]
  for q in ps:
    with ctx.impl("generator", q=q):
      g = cm.find_generator(q)
      ctx.check(len({pow(g, e, q) for e in range(q - 1)}) == q - 1, "generator", q=q, got=g)
      for m in [d for d in range(1, q) if (q - 1) % d == 0]:
        if m == 1:
          continue
        r = cm.root_of_unity(m, q)
        prim = [x for x in range(1, q) if pow(x, m, q) == 1 and all(pow(x, m // f, q) != 1 for f in cm.prime_factors(m))]
        ctx.check(r == min(prim), "root", q=q, m=m, got=r, want=min(prim))
        ctx.cover(states=1, transitions=1, traces=1)
      for m in (5, 7, 8, 11):
        if (q - 1) % m:
          ctx.raises("root:none", ValueError, lambda: cm.root_of_unity(m, q), q=q, m=m)
      for x in range(1, q):
        ctx.check(ru.inverse_mod(x, q) * x % q == 1, "inverse", q=q, x=x)
      ctx.cover(states=q, transitions=q)
  ctx.check(cm.find_generator(2) == 1, "generator", q=2)
  for n in range(0, 13):
    size = 1 << n
    with ctx.impl("bitrev"):
      want = [int(format(i, f"0{n}b")[::-1], 2) if n else 0 for i in range(size)]
      ctx.equal("bitrev", want, cm.get_bit_reverse_perm(size), n=n)
      ctx.equal("bitrev", want, [ru.bit_reversal(i, n) for i in range(size)], n=n)
      xs = list(range(100, 100 + size))
      ru.bit_reversal_array(xs)
      ctx.equal("bitrev:array", [100 + i for i in want], xs, n=n)
      ctx.check(ru.num_bits(size) == n, "bitrev:bits", n=n)
    ctx.cover(states=size, transitions=3, traces=1)
  for x in range(-4, 5000):
    ctx.check(ru.is_power_of_two(x) == (x > 0 and bin(x).count("1") == 1), "power of two", x=x)
  ctx.cover(states=5004)
  for rows, cols, (q, om) in itertools.product((1, 2, 3, 8), (1, 2, 5, 8), ((17, 3), (97, 5), (1073741441, 7), (2147483647, 16807))):
    with ctx.impl("twiddle"):
      ctx.equal("twiddle", [[pow(om, r * c, q) for c in range(cols)] for r in range(rows)],
                cm.gen_twiddle_matrix(rows, cols, q, om), q=q)
      ctx.equal("twiddle:inv", [[pow(om, -r * c, q) for c in range(cols)] for r in range(rows)],
                cm.gen_twiddle_matrix_inv(rows, cols, q, om), q=q)
    ctx.cover(states=1, transitions=2, traces=1)
  ctx.outcome("number theory")


SHARDS = {"barrett": barrett, "bat": bat, "number_theory": number_theory}


def shards(tier):
  return [("barrett@small", {"part": "small"}), ("barrett@wide", {"part": "wide"}), ("bat", {}), ("number_theory", {})]
