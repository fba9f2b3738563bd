"""Batched mapping in bounded chunks gives what one big map gives."""
import itertools

PROPERTY = "C13"
RULE = (
    "every mapped length 1..9 x every chunk size 1..5 (and larger than the length) x every "
    "input/output axis, negative axes, unmapped arguments in every position, nested "
    "containers; compared with the per-element loop and with jax.vmap")


def run(ctx, chunks):
  import jax
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_cggi import jax_helpers
  sizes = range(1, 8) if ctx.quick else range(1, 14)

  def data(n, axis, shape=(2, 3), salt=0):
    base = (np.arange(n * int(np.prod(shape))) * 7 + salt).reshape((n,) + shape).astype(np.int32)
    return base, jnp.asarray(np.moveaxis(base, 0, axis))

  for n, c in itertools.product(sizes, chunks):
    # one argument, every axis pair
    for ia, oa in itertools.product((0, 1, 2, -1), (0, 1, -1)):
      key = f"one:n{n}c{c}i{ia}o{oa}"
      with ctx.impl(key):
        base, x = data(n, ia)
        f = lambda v: v.T * 3 + 1
        got = jax_helpers.batch_vmap(f, in_axes=ia, out_axes=oa, batch_size=c)(x)
        want = np.moveaxis(np.stack([np.asarray(f(b)) for b in base]), 0, oa)
        ctx.equal(key, want, got)
      ctx.cover(states=1, transitions=1, traces=n)
    # three arguments, every subset mapped, axes 0/1, order-sensitive body
    for axes in itertools.product((0, 1, None), repeat=3):
      if all(a is None for a in axes):
        continue
      key = f"three:n{n}c{c}:{axes}"
      with ctx.impl(key):
        bases, args = [], []
        for p, a in enumerate(axes):
          if a is None:
            u = np.array([[1, 2, 3], [4, 5, 6]], dtype=np.int32) * (p + 1)
            bases.append([u] * n)
            args.append(jnp.asarray(u))
          else:
            b, x = data(n, a, salt=p * 100)
            bases.append(b)
            args.append(x)
        f = lambda a, b, d: (a * 5 + b * 3 + d, a - d)
        got = jax_helpers.batch_vmap(f, in_axes=axes, batch_size=c)(*args)
        want = [np.stack([np.asarray(f(*t)[o]) for t in zip(*bases)]) for o in (0, 1)]
        ctx.check(isinstance(got, tuple) and len(got) == 2, key, problem="structure")
        for o in (0, 1):
          ctx.equal(key, want[o], got[o], output=o)
      ctx.cover(states=1, transitions=1, traces=n)
    # containers
    for oa in (0, 1, {"s": 1, "t": [0, 2]}):
      key = f"tree:n{n}c{c}:{oa}"
      with ctx.impl(key):
        b0, x0 = data(n, 0)
        b1, x1 = data(n, 1, salt=50)
        f = lambda a, d: {"s": a["x"] + d, "t": [a["y"][0] * 2, (a["x"] - a["y"][0])]}
        arg = {"x": x0, "y": (x1,)}
        got = jax_helpers.batch_vmap(f, in_axes=({"x": 0, "y": (1,)}, None), out_axes=oa, batch_size=c)(arg, jnp.int32(9))
        want = jax.vmap(f, in_axes=({"x": 0, "y": (1,)}, None), out_axes=oa)(arg, jnp.int32(9))
        loop = [f({"x": p, "y": (q,)}, 9) for p, q in zip(b0, b1)]
        ax = oa if isinstance(oa, int) else oa["s"]
        ctx.equal(key, np.moveaxis(np.stack([np.asarray(v["s"]) for v in loop]), 0, ax), got["s"])
        for w, g in zip(jax.tree_util.tree_leaves(want), jax.tree_util.tree_leaves(got)):
          ctx.equal(key, w, g)
      ctx.cover(states=1, transitions=1, traces=n)
    # scalar results and jit
    with ctx.impl(f"scalar:n{n}c{c}"):
      b, x = data(n, 0, shape=(4,))
      got = jax.jit(jax_helpers.batch_vmap(jnp.sum, batch_size=c))(x)
      ctx.equal(f"scalar:n{n}c{c}", b.sum(1), got)
    ctx.cover(states=1, transitions=1, traces=n)
    ctx.outcome((n, c))
  ctx.bound(lengths=list(sizes), chunks=list(chunks))


SHARDS = {"map": run}


def shards(tier):
  cs = (1, 2, 3, 4, 5, 8) if tier == "quick" else range(1, 15)
  return [(f"map@{c}", {"chunks": [c]}) for c in cs]
