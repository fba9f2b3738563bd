"""Rescaling divides by the dropped moduli with exact centred rounding."""
import itertools

PROPERTY = "C18"
RULE = (
    "every value x modulo Q for small moduli chains (each placed in every coefficient), and "
    "every rounding boundary of large chains, for every ordering of modulus sizes, every "
    "number of dropped limbs, every row/column split, 1-3 ciphertext elements; result compared "
    "with (x - [x mod q_L]) / q_L computed exactly, applied once per dropped limb")


def _round_div(x, q_all, ql):
  c = x % ql
  if c > ql // 2:
    c -= ql
  return (x - c) // ql % (q_all // ql)


def run(ctx, chains, n):
  import jax.numpy as jnp
  import math
  import numpy as np
  from jaxite.jaxite_ckks import ntt_cpu
  from jaxite.jaxite_ckks import rescale
  from jaxite.jaxite_ckks import types
  for mods in chains:
    q = math.prod(mods)
    if q <= 20000:
      xs = list(range(q))
    else:
      xs = set()
      for d in range(1, len(mods)):
        p = math.prod(mods[-d:])
        for k in (0, 1, 2, q // p // 2, q // p - 1, q // p // 3):
          for t in (-1, 0, 1):
            xs |= {(k * p + t) % q, (k * p + p // 2 + t) % q, (k * p + mods[-d] // 2 + t) % q}
      for i, m in enumerate(mods):
        for v in (1, m // 2, m // 2 + 1, m - 1):
          xs |= {v, q - v, v * (q // m) % q}
      xs |= {q // 2, q // 2 + 1, q // 3, q - 1}
      xs = sorted(xs)
    pad = (-len(xs)) % n
    allx = xs + xs[:pad]
    while len(allx) % n:
      allx.append(0)
    polys = [allx[i:i + n] for i in range(0, len(allx), n)]
    # every value also in a shifted coefficient position
    polys += [p[1:] + p[:1] for p in polys[:50]]
    for drop in range(1, len(mods)):
      rem = mods[:-drop]
      splits = [(1 << a, n >> a) for a in range(n.bit_length())]
      if ctx.quick:
        splits = splits[1:3]
      for r, c in splits:
        key = f"rescale:{mods}:drop{drop}:{r}x{c}"
        with ctx.impl(key):
          k = rescale.Rescale()
          k.precompute_constants(mods, drop, r, c)
          elems = []
          for p in polys:
            co = np.array([[x % m for m in mods] for x in p], dtype=np.uint64)
            elems.append(np.asarray(ntt_cpu.ntt_negacyclic_poly(co, mods)).astype(np.uint32))
          want = []
          for p in polys:
            vs, qa = list(p), q
            for m in reversed(mods[len(rem):]):
              vs = [_round_div(x, qa, m) for x in vs]
              qa //= m
            want.append(vs)
          for size in (len(elems), 1, 2, 3):
            batch = elems[:size]
            data = jnp.asarray(np.stack(batch))
            ct = types.Ciphertext(data, jnp.asarray(mods, dtype=jnp.uint32))
            k.rescale(ct)
            out = np.asarray(ct.data)
            ctx.check(out.shape == (len(batch), n, len(rem)) and np.asarray(ct.moduli).tolist() == rem, key,
                      problem="shape", got=out.shape, moduli=np.asarray(ct.moduli))
            if size != len(elems):
              ctx.equal(key + ":batch", first[:size], out)
              continue
            first = out
            for e, vs in zip(out, want):
              got = np.asarray(ntt_cpu.intt_negacyclic_poly(e.astype(np.uint64), rem))
              w = np.array([[x % m for m in rem] for x in vs], dtype=np.uint64)
              if not ctx.equal(key, w, got):
                break
        ctx.cover(states=len(polys) * n, transitions=drop, traces=len(polys) * n)
      ctx.outcome((tuple(mods), drop))
  k = rescale.Rescale()
  ctx.raises("rescale:uninitialised", ValueError, lambda: k.rescale(None))


SHARDS = {"rescale": run}


def shards(tier):
  small = [[17, 97], [97, 17], [193, 17], [17, 193], [97, 113], [17, 97, 7 * 16 + 1], [113, 17]]
  small = [c for c in small if all((m - 1) % 16 == 0 for m in c)]
  out = [("rescale@small", {"chains": small, "n": 8})]

  def big(sizes):
    from mc import core
    del core
    ps, used = [], set()
    for b in sizes:
      ps.append(_prime(8, b, used))
      used.add(ps[-1])
    return ps
  combos = [(28, 28), (28, 31), (31, 28), (20, 31), (31, 17), (30, 28, 28), (28, 30, 31), (31, 28, 20), (20, 28, 31),
            (28, 28, 31, 31), (30, 17, 28, 31), (31, 31, 28, 28, 28)]
  if tier == "thorough":
    combos += list(itertools.product((14, 20, 26, 28, 30, 31), repeat=3))
  chains = [big(c) for c in combos]
  parts = 7
  return out + [(f"rescale@{i}", {"chains": chains[i::parts], "n": 8}) for i in range(parts)]


def _prime(n, bits, used):
  x = (1 << bits) // (2 * n) * (2 * n) + 1
  while True:
    x -= 2 * n
    if x not in used and all(x % d for d in range(3, int(x ** 0.5) + 1, 2)):
      return x
