"""Every NTT is the exact evaluation map, its inverse undoes it, and products are negacyclic."""
import itertools

PROPERTY = "C15"
RULE = (
    "all polynomials for the smallest rings (q^n up to 83521), all scaled unit vectors and "
    "all pairs of unit vectors plus extreme-coefficient polynomials for larger ones, every "
    "row/column split of the accelerator kernel, every prime size 3..31 bits; compared with "
    "direct evaluation at the odd powers of a primitive root and schoolbook products")


def _rev(i, n):
  b = n.bit_length() - 1
  return int(format(i, f"0{b}b")[::-1], 2) if b else 0


def _polys(n, q):
  """Rows of test polynomials: scaled units, constants, ramps, extremes."""
  rows = []
  for i in range(n):
    for c in (1, q - 1, q // 2, q // 3 + 1):
      e = [0] * n
      e[i] = c
      rows.append(e)
  rows += [[q - 1] * n, [0] * n, [1] * n, [(i * i * 7 + 3 * i) % q for i in range(n)],
           [(q - 1) if i % 2 else 0 for i in range(n)], [(q - 1 - i) % q for i in range(n)],
           [pow(3, i, q) for i in range(n)]]
  return rows


def _eval_matrix(psi, n, q, order):
  import numpy as np
  pw = [pow(psi, e, q) for e in range(2 * n)]
  return np.array([[pw[(2 * order[i] + 1) * j % (2 * n)] for j in range(n)] for i in range(n)], dtype=object)


def configs(tier):
  from mc import ckks as ck
  out = [(2, 5), (2, 13), (4, 17), (4, 41), (8, 17), (8, 97), (16, 97), (16, 193), (32, 193), (64, 257)]
  for n in (4, 16, 64):
    for bits in (10, 14, 17, 20, 24, 28, 30, 31):
      if bits > n.bit_length() + 3:
        out.append((n, ck.primes(n, bits, 1)[0]))
  out += [(256, ck.primes(256, 28, 1)[0]), (128, 257), (256, 7681)]
  return out


def host(ctx, part, parts):
  """The two host implementations."""
  import numpy as np
  from mc import ckks as ck
  from jaxite.jaxite_ckks import ntt_cpu
  from jaxite.jaxite_ckks import rns
  for n, q in configs(ctx.tier)[part::parts]:
    order = [_rev(i, n) for i in range(n)]
    if q ** n <= 90000:
      rows = [list(t) for t in itertools.product(range(q), repeat=n)]
      if ctx.quick and len(rows) > 30000:
        rows = rows[::3] + rows[-1:]
    else:
      rows = _polys(n, q)
    key = f"host:n{n}q{q}"
    with ctx.impl(key):
      f = lambda v: np.asarray(ntt_cpu.ntt_negacyclic_poly(np.array([v], dtype=np.uint64).T, [q]))[:, 0]
      if n > 1:
        x = [0] * n
        x[1] = 1
        psi = int(f(x)[0])
      else:
        psi = q - 1
      ctx.check(pow(psi, n, q) == q - 1, key, problem="slot 0 is not at a primitive root", psi=psi)
      mat = _eval_matrix(psi, n, q, order)
      a = np.array(rows, dtype=object)
      want = (a @ mat.T) % q
      step = max(1, len(rows) // 3000)
      for i in range(0, len(rows), step):
        got = f(rows[i])
        if not ctx.equal(key, want[i].astype(np.uint64), got, poly=rows[i]):
          break
        back = np.asarray(ntt_cpu.intt_negacyclic_poly(np.asarray(got).reshape(-1, 1), [q]))[:, 0]
        if not ctx.equal(key + ":inverse", np.array(rows[i], dtype=np.uint64), back, poly=rows[i]):
          break
        ctx.cover(states=1, transitions=2, traces=1)
      # the generic transforms with an explicit root
      for v in rows[:: max(1, len(rows) // 60)]:
        arr = np.array(v, dtype=object)
        g = ntt_cpu.ntt_negacyclic_bit_reverse(arr, q, psi)
        nat = [sum(int(c) * pow(psi, (2 * i + 1) * j, q) for j, c in enumerate(v)) % q for i in range(n)]
        ctx.equal(key + ":explicit", sorted(nat), sorted(int(t) for t in g), poly=v)
        back = ntt_cpu.intt_negacyclic_bit_reverse(g, q, psi)
        ctx.equal(key + ":explicit inverse", v, [int(t) for t in back])
        om = pow(psi, 2, q)
        cyc = ntt_cpu.ntt_cyclic_bit_reverse(arr, q, om)
        ctx.equal(key + ":cyclic inverse", v, [int(t) for t in ntt_cpu.intt_cyclic_bit_reverse(cyc, q, om)])
        ctx.equal(key + ":cyclic", sorted(sum(int(c) * pow(om, i * j, q) for j, c in enumerate(v)) % q for i in range(n)),
                  sorted(int(t) for t in cyc))
        ctx.cover(states=1, transitions=4, traces=2)
    # reference class: in place on lists
    key = f"rns:n{n}q{q}"
    with ctx.impl(key):
      t = rns.Ntt(n, q)
      x = [0] * n
      x[1 % n] = 1
      fx = list(x)
      t.forward(fx)
      if n > 1:
        ctx.check(sorted(fx) == sorted({pow(psi, 2 * i + 1, q) for i in range(n)}), key,
                  problem="not the odd powers", got=fx)
      a = np.array(rows, dtype=object)
      if n > 1:
        pw = np.array([[pow(e, j, q) for j in range(n)] for e in fx], dtype=object)
        want = (a @ pw.T) % q
      else:
        want = a % q
      for i in range(0, len(rows), step):
        v = list(rows[i])
        t.forward(v)
        if not ctx.check([int(c) for c in v] == [int(c) for c in want[i]], key, poly=rows[i], got=v, want=want[i].tolist()):
          break
        t.backward(v)
        if not ctx.check(v == rows[i], key + ":inverse", poly=rows[i], got=v):
          break
        ctx.cover(states=1, transitions=2, traces=1)
    # products
    us = _polys(n, q) if n <= 16 else _polys(n, q)[:: max(1, 4 * n // 24)]
    for u, v in itertools.product(us, us[:: max(1, len(us) // 12)]):
      with ctx.impl(f"product:n{n}q{q}"):
        w = ck.negacyclic(u, v, q)
        p = np.array([f(u).astype(object) * f(v).astype(object) % q], dtype=object).T.astype(np.uint64)
        got = np.asarray(ntt_cpu.intt_negacyclic_poly(p, [q]))[:, 0]
        ctx.equal(f"product:cpu:n{n}q{q}", np.array(w, dtype=np.uint64), got, a=u, b=v)
        uu, vv = list(u), list(v)
        t.forward(uu)
        t.forward(vv)
        r = [a_ * b_ % q for a_, b_ in zip(uu, vv)]
        t.backward(r)
        ctx.check(r == w, f"product:rns:n{n}q{q}", a=u, b=v)
      ctx.cover(states=1, transitions=4, traces=2)
    ctx.outcome((n, q))
  for n, q in ((3, 19), (6, 13), (0, 5)):
    ctx.raises("rns:degree", ValueError, lambda: rns.Ntt(n, q), n=n)
  for n, q in ((4, 13), (8, 41), (2, 7)):
    ctx.raises("rns:modulus", ValueError, lambda: rns.Ntt(n, q), n=n, q=q)


def several(ctx):
  """Several moduli at once: each limb is the transform of that limb."""
  import numpy as np
  from mc import ckks as ck
  from jaxite.jaxite_ckks import ntt_cpu
  for n in (2, 8, 32):
    pool = [ck.primes(n, b, 1)[0] for b in (12, 17, 28, 31)]
    for k in (1, 2, 3):
      for mods in itertools.permutations(pool, k):
        mods = list(mods)
        rows = np.array([[(7 * i * i + 13 * t + i) % q for t, q in enumerate(mods)] for i in range(n)], dtype=np.uint64)
        key = f"several:n{n}"
        with ctx.impl(key):
          got = np.asarray(ntt_cpu.ntt_negacyclic_poly(rows, mods))
          one = np.stack([np.asarray(ntt_cpu.ntt_negacyclic_poly(rows[:, t:t + 1], [q]))[:, 0] for t, q in enumerate(mods)], axis=1)
          ctx.equal(key, one, got, moduli=mods)
          ctx.equal(key + ":inverse", rows, ntt_cpu.intt_negacyclic_poly(got, mods), moduli=mods)
        ctx.cover(states=1, transitions=2, traces=k)
    ctx.outcome(n)


def kernel(ctx, part, parts):
  """The accelerator kernel on every split of every degree."""
  import jax
  import jax.numpy as jnp
  import numpy as np
  from mc import ckks as ck
  from jaxite.jaxite_ckks import ntt
  from jaxite.jaxite_ckks import ntt_cpu
  work = []
  for n in (2, 4, 8, 16, 64, 256) + (() if ctx.quick else (1024,)):
    splits = [(1 << a, n >> a) for a in range(n.bit_length())]
    sets = [[ck.primes(n, 31, 1)[0], ck.primes(n, 28, 1)[0], ck.primes(n, 17, 1)[0] if n < 1000 else 65537]]
    smallest = next(q for q in range(2 * n + 1, 10 ** 6, 2 * n) if ck.is_prime(q))
    sets.append([smallest, ck.primes(n, 30, 2)[1]])
    if n <= 16:
      sets.append([97 if n <= 16 else 257])
      sets.append(ck.primes(n, 12, 2))
    if n == 256 and ctx.quick:
      splits = [(16, 16), (2, 128), (256, 1)]
    for s in splits:
      for m in sets:
        work.append((n, s, m))
  for n, (r, c), mods in work[part::parts]:
    m = len(mods)
    key = f"kernel:{r}x{c}:{mods}"
    with ctx.impl(key):
      k = ntt.NTTBarrett()
      k.precompute_constants(mods, r, c)
      polys = [_polys(n, q) for q in mods]
      if n > 64:
        polys = [p[:: 4 * n // 64] + p[-7:] for p in polys]
      if len(mods) == 1 and mods[0] ** n <= 90000:
        polys = [[list(t) for t in itertools.product(range(mods[0]), repeat=n)]]
      arr = np.array(polys, dtype=np.uint32).transpose(1, 2, 0)  # (rows, n, m)
      got = np.asarray(k.ntt(jnp.asarray(arr.reshape(-1, r, c, m))))
      ctx.check(got.shape == (len(arr), r, c, m) and got.dtype == np.uint32, key, problem="shape", got=got.shape)
      got = got.reshape(len(arr), n, m)
      # evaluation at the odd powers of the root the host transform uses, in its slot order
      want = np.zeros_like(got)
      for t, q in enumerate(mods):
        x = np.zeros((n, 1), dtype=np.uint64)
        x[1] = 1
        psi = int(np.asarray(ntt_cpu.ntt_negacyclic_poly(x, [q]))[0, 0])
        mat = _eval_matrix(psi, n, q, [_rev(i, n) for i in range(n)])
        if n <= 64:
          want[:, :, t] = ((arr[:, :, t].astype(object) @ mat.T) % q).astype(np.uint32)
        else:
          mm = mat.astype(np.uint64)
          for lo in range(len(arr)):
            want[lo, :, t] = ((mm * arr[lo, :, t].astype(np.uint64)) % np.uint64(q)).sum(1) % np.uint64(q)
      ctx.equal(key, want, got)
      back = np.asarray(k.intt(jnp.asarray(want.reshape(-1, r, c, m)))).reshape(len(arr), n, m)
      ctx.equal(key + ":inverse", arr, back)
      # no leading dimension, two leading dimensions, under jit, rebuilt from its leaves
      ctx.equal(key + ":plain", want[-1], np.asarray(k.ntt(jnp.asarray(arr[-1].reshape(r, c, m)))).reshape(n, m))
      leaves, tree = jax.tree_util.tree_flatten(k)
      k2 = jax.tree_util.tree_unflatten(tree, leaves)
      two = arr[-4:].reshape(2, 2, r, c, m)
      ctx.equal(key + ":rebuilt", want[-4:].reshape(2, 2, r, c, m), jax.jit(lambda kk, v: kk.ntt(v))(k2, jnp.asarray(two)))
      # every contiguous choice of moduli
      for a, b in itertools.combinations(range(m + 1), 2):
        ks = ntt.NTTBarrett()
        ks.constants = k.constants.slice_moduli(slice(a, b))
        sub = arr[-5:, :, a:b].reshape(-1, r, c, b - a)
        ctx.equal(key + f":slice{a}:{b}", want[-5:, :, a:b], np.asarray(ks.ntt(jnp.asarray(sub))).reshape(-1, n, b - a))
        wsub = want[-5:, :, a:b].reshape(-1, r, c, b - a)
        ctx.equal(key + f":slice{a}:{b}:inverse", arr[-5:, :, a:b], np.asarray(ks.intt(jnp.asarray(wsub))).reshape(-1, n, b - a))
        ctx.equal(key + f":slice{a}:{b}:moduli", mods[a:b], np.asarray(ks.constants.moduli))
    ctx.cover(states=len(arr) * m, transitions=4, traces=len(arr) * m)
    ctx.outcome((r, c, tuple(mods)))


SHARDS = {"host": host, "several": several, "kernel": kernel}


def shards(tier):
  return ([(f"host@{i}", {"part": i, "parts": 6}) for i in range(6)] + [("several", {})]
          + [(f"kernel@{i}", {"part": i, "parts": 8}) for i in range(8)])
