"""Ring arithmetic mod X^N+1 and 2^32 agrees with the schoolbook definition."""
import itertools

PROPERTY = "C07"
RULE = (
    "every pair of polynomials over a carry/sign alphabet for N <= 3, every pair of "
    "monomials c*X^i, c'*X^j over the alphabet for larger N, every monomial degree in "
    "[-4N, 4N], every vector/matrix shape in bounds, on the portable path and on the "
    "accelerator kernels (Pallas interpreter); each result compared coefficient by "
    "coefficient with schoolbook integer arithmetic")
ALPHA = [0, 1, 2, 255, 256, 0x01020304, 0x7FFFFFFF, 0x80000000, 0xFFFFFF00, 0xFFFFFFFF]
M32 = (1 << 32) - 1


def _np():
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_cggi import matrix_utils as mu
  return jnp, np, mu


def u32(x):
  import numpy as np
  return np.asarray(x).astype(np.uint32)


def all_pairs(ctx, n, alpha):
  from mc import ref
  jnp, np, mu = _np()
  polys = np.array(list(itertools.product(alpha, repeat=n)), dtype=np.uint32)
  for a in polys:
    with ctx.impl(f"poly_mul_const_list:n{n}"):
      got = mu.poly_mul_const_list(jnp.asarray(a), jnp.asarray(polys))
      ctx.equal(f"poly_mul_const_list:n{n}", ref.negacyclic_u32(a[None, :], polys),
                u32(got), a=a)
    ctx.cover(states=len(polys), transitions=1, traces=len(polys))
  # the row-wise product, over the same pairs, in one call per shift
  for s in range(len(polys)) if len(polys) < 200 else range(0, len(polys), len(polys) // 97):
    b = np.roll(polys, s, axis=0)
    with ctx.impl(f"poly_mul_list:n{n}"):
      got = mu.poly_mul_list(jnp.asarray(polys), jnp.asarray(b))
      ctx.equal(f"poly_mul_list:n{n}", ref.negacyclic_u32(polys, b), u32(got), shift=s)
    ctx.cover(states=len(polys), transitions=1, traces=len(polys))
  ctx.outcome(n)
  ctx.sample({"n": n, "alphabet": alpha})


def products(ctx):
  _, np, _ = _np()
  all_pairs(ctx, 1, ALPHA)
  all_pairs(ctx, 2, ALPHA)
  all_pairs(ctx, 3, ALPHA if ctx.thorough else [0, 1, 256, 0x01020304, 0x80000000, M32])
  if ctx.thorough:
    all_pairs(ctx, 4, [0, 1, 0x01020304, 0x80000001, M32])


def monomial_pairs(ctx, ns):
  """c*X^i times c'*X^j, plus each monomial times a dense polynomial."""
  from mc import ref
  jnp, np, mu = _np()
  for n in ns:
    scal = ALPHA[1:] if n <= 9 else [1, 0x01020304, 0x80000000, M32]
    rows = []
    for c in scal:
      rows.append(np.eye(n, dtype=np.uint32) * np.uint32(c))
    dense = ((np.arange(n, dtype=np.uint64) * 0x9E3779B1 + 0x12345679) & M32).astype(np.uint32)
    rows.append(np.stack([dense, np.full(n, M32, np.uint32), np.full(n, 0x80000000, np.uint32)]))
    rows = np.concatenate(rows)
    if n > 128 and ctx.quick:
      rows = np.concatenate([rows[:n:16], rows[n - 1:n], rows[2 * n - 1:3 * n:64], rows[-3:]])
    lefts = rows if n <= 16 or len(rows) < 50 else np.concatenate([rows[: n: max(1, n // 16)], rows[n - 1:n], rows[-3:]])
    with ctx.impl(f"monomial pairs:n{n}"):
      for a in lefts:
        want = ref.negacyclic_u32(a[None, :], rows)
        for s in range(0, len(rows), 256):
          got = mu.poly_mul_const_list(jnp.asarray(a), jnp.asarray(rows[s:s + 256]))
          ctx.equal(f"poly_mul:n{n}", want[s:s + 256], u32(got), a=a if n <= 16 else "row")
        ctx.cover(states=len(rows), transitions=1, traces=len(rows))
      # matrices: (r, c, n)
      for r, c in ((1, 1), (1, 2), (2, 1), (2, 3)):
        mat = np.resize(rows, (r, c, n))
        got = mu.poly_mul_const_matrix(jnp.asarray(dense), jnp.asarray(mat))
        ctx.equal(f"poly_mul_const_matrix:n{n}:{r}x{c}",
                  ref.negacyclic_u32(dense, mat), u32(got))
        ctx.cover(states=1, transitions=1, traces=1)
    ctx.outcome(n)


def monomial_mul(ctx, ns):
  from mc import ref
  jnp, np, mu = _np()
  import jax
  for n in ns:
    base = ((np.arange(n, dtype=np.uint64) * 0x9E3779B1 + 0x12345679) & M32)
    for lm in ((32, 0) if n > 16 else (32, 0, 31, 16, 8, 3, 1)):
      mod = 1 << (lm if 0 < lm < 32 else 32)
      for variant in ("generic", "edges"):
        p = base % mod if variant == "generic" else np.resize(
            np.array([0, mod - 1, mod // 2, 1 % mod], dtype=np.uint64), n)
        degs = list(range(-4 * n, 4 * n + 1)) if n <= 64 else sorted(
            {k * n + d for k in range(-4, 5) for d in (-2, -1, 0, 1, 2, n // 2, 37)})
        key = f"monomial_mul:n{n}:log{lm}:{variant}"
        with ctx.impl(key):
          jp = jnp.asarray(p.astype(np.uint32))
          for d in degs:
            got = mu.monomial_mul(jp, jnp.int32(d), lm)
            want = ref.monomial(p, d, mod)
            ctx.equal(key, np.array(want, dtype=np.uint64), np.asarray(got).astype(np.uint32), degree=d)
            ctx.check(got.dtype == jp.dtype, key, problem="dtype", got=str(got.dtype))
          pos = [d for d in degs if d >= 0]
          for d in pos[:: max(1, len(pos) // 40)]:
            got = mu.monomial_mul(jp, jnp.uint32(d), lm)
            ctx.equal(key + ":u32 degree", ref.monomial(p, d, mod), np.asarray(got).astype(np.uint32), degree=d)
          ctx.cover(states=len(degs), transitions=len(degs), traces=len(degs))
    mat = np.resize(base.astype(np.uint32), (2, 3, n)) + np.arange(6, dtype=np.uint32).reshape(2, 3, 1)
    key = f"matrix:n{n}"
    degs = range(-2 * n, 2 * n + 1) if n <= 16 else (-n, -1, 0, 1, n - 1, n, n + 1, 2 * n - 1, 2 * n)
    with ctx.impl(key):
      for d in degs:
        for lm in (32, 8):
          mod = 1 << lm
          mm = (mat % np.uint64(mod)).astype(np.uint32)
          want = np.array([[ref.monomial(q, d, mod) for q in row] for row in mm], dtype=np.uint64)
          got = mu.monomial_mul_matrix(jnp.asarray(mm), jnp.int32(d), lm)
          ctx.equal(key + ":monomial_mul_matrix", want, u32(got), degree=d, log=lm)
          got = mu.monomial_mul_list(jnp.asarray(mm[0]), jnp.int32(d), lm)
          ctx.equal(key + ":monomial_mul_list", want[0], u32(got), degree=d, log=lm)
          got = mu.scale_by_x_power_n_minus_1(jnp.int32(d), jnp.asarray(mm), lm)
          w = (want + np.uint64(mod) - mm.astype(np.uint64)) % np.uint64(mod)
          ctx.equal(key + ":scale_by_x_power_n_minus_1", w, u32(got), degree=d, log=lm)
          ctx.cover(states=1, transitions=3, traces=3)
        got = np.asarray(mu.x_power_n_minus_1(jnp.int32(d), n)).astype(np.int64)
        w = np.array(ref.monomial([1] + [0] * (n - 1), d, 1 << 40), dtype=np.int64)
        w = np.where(w > 1 << 39, w - (1 << 40), w)
        w[0] -= 1
        ctx.equal(key + ":x_power_n_minus_1", w, got, degree=d)
        ctx.cover(states=1, transitions=1, traces=1)
    ctx.outcome(n)


def vector_matrix(ctx):
  """Vector times matrix of polynomials, all shapes in bounds; dot products."""
  from mc import ref
  jnp, np, mu = _np()
  from jaxite.jaxite_cggi import polymul_kernel as pk
  for b, m, n in itertools.product((1, 2, 3, 6), (1, 2, 3, 4), (1, 2, 4, 5)):
    if ctx.quick and (b + m) % 2 and n in (2, 5):
      continue
    for kind in range(4):
      src = {0: lambda k: (np.arange(k, dtype=np.uint64) * 0x9E3779B1 + 7) & M32,
             1: lambda k: np.full(k, M32, np.uint64),
             2: lambda k: np.full(k, 1 << 31, np.uint64),
             3: lambda k: np.arange(k, dtype=np.uint64) % 3}[kind]
      vec = src(b * n).astype(np.uint32).reshape(b, n)
      mat = src(b * m * n)[::-1].astype(np.uint32).reshape(b, m, n)
      want = np.zeros((m, n), dtype=np.uint32)
      for i in range(b):
        for j in range(m):
          want[j] += ref.negacyclic_u32(vec[i], mat[i, j])
      key = f"vecmat:{b}x{m}x{n}:{kind}"
      with ctx.impl(key):
        for logb in (4, 8):
          got = pk.negacyclic_vector_matrix_polymul(jnp.asarray(vec), jnp.asarray(mat), logb)
          ctx.equal(key, want, u32(got))
        bat = bat_of(mat)
        got = pk.negacyclic_vector_matrix_polymul_bat(jnp.asarray(vec), jnp.asarray(bat))
        ctx.equal(key + ":bat", want, u32(got))
        # bat_matmul is the product of the expanded matrix with each Toeplitz block
        toe = np.zeros((b, n, n), dtype=np.uint32)
        for i in range(b):
          for r in range(n):
            toe[i, r] = ref.negacyclic_u32(np.eye(n, dtype=np.uint32)[r], vec[i])
        got = pk.bat_matmul(jnp.asarray(bat), jnp.asarray(toe))
        ctx.equal(key + ":bat_matmul", want, u32(got))
        got = mu.poly_dot_product(jnp.asarray(vec), jnp.asarray(mat[:, 0]))
        ctx.equal(key + ":dot", want[0], u32(got))
      ctx.cover(states=1, transitions=5, traces=5)
      ctx.outcome((b, m, n))
  for bad in (1, 2, 7):
    ctx.raises(f"vecmat:mismatch:{bad}", ValueError, lambda: pk.negacyclic_vector_matrix_polymul(
        jnp.zeros((2, 8), jnp.uint32), jnp.zeros((2, 1, bad), jnp.uint32), 4))


def bat_of(mat):
  """u32 (..., n) -> u8 (..., n, 4, 4): row p, column q holds byte p-q."""
  import numpy as np
  bat = np.zeros(mat.shape + (4, 4), dtype=np.uint8)
  for p in range(4):
    for q in range(p + 1):
      bat[..., p, q] = (mat >> np.uint32(8 * (p - q))) & np.uint32(255)
  return bat


def matmul(ctx):
  """vector @ matrix through byte products: all alphabet words, several shapes."""
  jnp, np, mu = _np()
  from jaxite.jaxite_cggi import polymul_kernel as pk
  al = np.array(ALPHA, dtype=np.uint32)
  for dt in (np.uint32, np.int32):
    for n in (1, 2, 3):
      rows = np.array(list(itertools.product(al, repeat=n)), dtype=np.uint32)
      if n == 3 and ctx.quick:
        rows = rows[::7]
      m = rows.T[:, :200].copy() if n > 1 else rows.T.copy()
      m = np.concatenate([m, rows.T[:, ::-1][:, :57]], axis=1)
      key = f"i32_as_u8_matmul:n{n}:{np.dtype(dt).name}"
      with ctx.impl(key):
        got = pk.fallback_i32_matmul(jnp.asarray(rows.view(dt)), jnp.asarray(m.view(dt)))
        want = (rows.astype(object) @ m.astype(object)) % (1 << 32) if n < 3 else (
            sum(rows[:, i:i + 1].astype(np.uint64) * m[i:i + 1].astype(np.uint64) for i in range(n))
            & np.uint64(M32))
        ctx.equal(key, want.astype(np.uint64), u32(got))
      ctx.cover(states=rows.shape[0] * m.shape[1], transitions=1, traces=rows.shape[0] * m.shape[1])
  for n, k in itertools.product((1, 4, 64, 512, 1024), (1, 3)):
    a = np.full(n, M32, dtype=np.uint32)
    b = np.full((n, k), M32, dtype=np.uint32)
    with ctx.impl(f"matmul:long:{n}x{k}"):
      got = mu.i32_as_u8_matmul(jnp.asarray(a), jnp.asarray(b))
      ctx.equal(f"matmul:long:{n}x{k}", np.full(k, (n * M32 * M32) & M32, np.uint64), u32(got))
    ctx.cover(states=1, transitions=1, traces=1)
  for sh in (((2, 2), (2, 2)), ((2,), (2,)), ((2, 2), (2,))):
    ctx.raises(f"matmul:reject:{sh}", ValueError, lambda: mu.i32_as_u8_matmul(
        jnp.ones(sh[0], jnp.int32), jnp.ones(sh[1], jnp.int32)))
  for n in list(range(1, 18)) + [33, 64]:
    x = np.arange(10, 10 + n, dtype=np.uint32)
    with ctx.impl(f"toeplitz:{n}"):
      ctx.equal(f"toeplitz:{n}", np.stack([np.roll(x, i) for i in range(n)]), mu.toeplitz(jnp.asarray(x)))
    ctx.cover(states=1, transitions=1, traces=1)


def division(ctx):
  """Rounded division: exhaustive small domain and all near-boundary quotients."""
  jnp, np, mu = _np()
  top = 4096 if ctx.thorough else 600
  xs = np.arange(top, dtype=np.uint64)
  edges = sorted({(1 << k) + d for k in range(33) for d in (-2, -1, 0, 1, 2)
                  if 0 <= (1 << k) + d <= M32})
  ex = np.array(edges, dtype=np.uint64)
  for d in list(range(1, 130)) + [e for e in edges if e > 129]:
    around = {k * d + d // 2 + t for k in (0, 1, 2, 3, M32 // d - 1, M32 // d) for t in (-1, 0, 1, 2)}
    v = np.array(sorted({int(x) for x in ex} | {x for x in around if 0 <= x <= M32}), dtype=np.uint64)
    v = np.concatenate([xs, v])
    with ctx.impl(f"integer_div:{d}"):
      got = mu.integer_div(jnp.asarray(v.astype(np.uint32)), jnp.uint32(d))
      # nearest integer, ties away from zero for even d ((x + d//2) // d)
      want = (v + np.uint64(d // 2)) // np.uint64(d)
      ctx.equal(f"integer_div:{d}", want, np.asarray(got).astype(np.uint64))
    ctx.cover(states=len(v), transitions=1, traces=len(v))
    ctx.outcome(d)


def kernels(ctx, part):
  """The accelerator kernels, run by the Pallas TPU interpreter."""
  from mc import ref
  import jax
  jnp, np, mu = _np()
  from jax.experimental.pallas import tpu as pltpu
  from jaxite.jaxite_cggi import jax_helpers
  from jaxite.jaxite_cggi import polymul_kernel as pk
  jax_helpers.get_tpu_version = lambda: 5
  with pltpu.force_tpu_interpret_mode():
    if part == "toeplitz":
      for n in (128, 256):
        x = ((np.arange(n, dtype=np.uint64) * 0x9E3779B1 + 7) & M32).astype(np.uint32)
        with ctx.impl(f"toeplitz_kernelized:{n}"):
          got = mu.toeplitz_kernelized(jnp.asarray(x.view(np.int32)))
          want = np.stack([ref.negacyclic_u32(np.eye(n, dtype=np.uint32)[i], x) for i in range(n)])
          ctx.equal(f"toeplitz_kernelized:{n}", want, u32(got))
        ctx.cover(states=n, transitions=1, traces=n)
        for c in ALPHA[1:]:
          for i in ((0, 1, 37, n // 2, n - 1) if c in (1, M32) else (0, n - 1)):
            a = np.zeros(n, np.uint32)
            a[i] = c
            with ctx.impl(f"kernel poly_mul:{n}"):
              ctx.equal(f"kernel poly_mul:{n}", ref.negacyclic_u32(a, x),
                        u32(mu.poly_mul(jnp.asarray(a), jnp.asarray(x))), c=c, i=i)
            ctx.cover(states=1, transitions=1, traces=1)
      for n in (1, 64, 127, 129):
        ctx.raises(f"toeplitz_kernelized:{n}", ValueError,
                   lambda: mu.toeplitz_kernelized(jnp.zeros(n, jnp.int32)))
      for n, m, k in ((1, 1, 1), (3, 5, 4), (8, 8, 8), (2, 256, 1)):
        for f in (M32, 0x01020304, 0x80000000):
          lhs = np.full((n, m), f, np.uint32)
          rhs = np.resize(np.array(ALPHA, np.uint32), (m, k))
          with ctx.impl(f"i32_matmul:{n}x{m}x{k}"):
            got = pk.i32_matmul(jnp.asarray(lhs.view(np.int32)), jnp.asarray(rhs.view(np.int32)))
            want = (lhs.astype(object) @ rhs.astype(object)) % (1 << 32)
            ctx.equal(f"i32_matmul:{n}x{m}x{k}", want.astype(np.uint64), u32(got))
          ctx.cover(states=1, transitions=1, traces=1)
    elif part == "decomposed":
      n = 128
      for b, m in itertools.product((1, 2, 6), (1, 2, 3, 4)):
        if ctx.quick and (b, m) not in ((1, 1), (1, 4), (2, 2), (6, 3)):
          continue
        for logb in (1, 4, 7):
          half = 1 << (logb - 1)
          vals = np.array([-half, half - 1, 0, -1, 1, half // 2], dtype=np.int64)
          vec = np.resize(vals, (b, n)).astype(np.int32).view(np.uint32)
          mat = ((np.arange(b * m * n, dtype=np.uint64) * 0x9E3779B1 + 7) & M32).astype(np.uint32).reshape(b, m, n)
          if logb == 7:
            vec = np.full((b, n), -half, dtype=np.int64).astype(np.int32).view(np.uint32)
            mat = np.full((b, m, n), M32, dtype=np.uint32)
          want = np.zeros((m, n), dtype=np.uint32)
          for i in range(b):
            want += ref.negacyclic_u32(vec[i][None], mat[i])
          key = f"kernel vecmat:{b}x{m}:logb{logb}"
          with ctx.impl(key):
            ctx.equal(key, want, u32(pk.negacyclic_vector_matrix_polymul(
                jnp.asarray(vec), jnp.asarray(mat), logb)))
          ctx.cover(states=1, transitions=1, traces=1)
          ctx.outcome((b, m, logb))
    else:
      n, b = 128, 18
      for m in (1, 2, 3):
        for fill in (0, 1):
          vec = np.resize(np.array([-8, 7, 0, -1, 1, 3], dtype=np.int64), (b, n)).astype(np.int32).view(np.uint32)
          mat = ((np.arange(b * m * n, dtype=np.uint64) * 0x9E3779B1 + 7) & M32).astype(np.uint32).reshape(b, m, n)
          if fill:
            mat = np.full((b, m, n), M32, dtype=np.uint32)
          want = np.zeros((m, n), dtype=np.uint32)
          for i in range(b):
            want += ref.negacyclic_u32(vec[i][None], mat[i])
          key = f"kernel bat:{m}:{fill}"
          with ctx.impl(key):
            ctx.equal(key, want, u32(pk.negacyclic_vector_matrix_polymul_bat(
                jnp.asarray(vec), jnp.asarray(bat_of(mat)))))
          ctx.cover(states=1, transitions=1, traces=1)
          ctx.outcome((m, fill))


SHARDS = {"products": products, "monomial_pairs": monomial_pairs, "monomial_mul": monomial_mul,
          "vector_matrix": vector_matrix, "matmul": matmul, "division": division, "kernels": kernels}


def shards(tier):
  out = [("products", {}), ("vector_matrix", {}), ("matmul", {}), ("division", {})]
  out += [("monomial_pairs@small", {"ns": [4, 5, 6, 7, 8, 9]}),
          ("monomial_pairs@large", {"ns": [16, 32, 128]}),
          ("monomial_pairs@512", {"ns": [512]})]
  out += [("monomial_mul@small", {"ns": [1, 2, 3, 4, 5]}), ("monomial_mul@mid", {"ns": [7, 8, 16]}),
          ("monomial_mul@large", {"ns": [32, 64, 512]})]
  out += [(f"kernels@{p}", {"part": p}) for p in ("toeplitz", "decomposed", "bat")]
  if tier == "thorough":
    out += [("monomial_pairs@1024", {"ns": [1024]}), ("monomial_mul@1024", {"ns": [128, 1024]})]
  return out
