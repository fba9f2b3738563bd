"""Basis conversion returns x + u*Q, 0 <= u < number of limbs, in every target modulus."""
import itertools

PROPERTY = "C17"
RULE = (
    "every value x of every small source basis (all permutations), boundary values of large "
    "ones (multiples of Q/q_i, limb extremes, all byte patterns), every list of conversions "
    "kept in one kernel, every leading shape, kernels set up a second time; one u < #limbs must explain all target residues")


def run(ctx, part):
  import jax
  import jax.numpy as jnp
  import math
  import numpy as np
  from mc import ckks as ck
  from jaxite.jaxite_ckks import basis_conversion as bc
  pool = [3, 5, 7, 17, 97, 257]
  work = []
  if part == "small":
    for k in (1, 2, 3):
      for src in itertools.permutations(pool, k):
        if math.prod(src) <= (12000 if ctx.quick else 60000) and (ctx.thorough or k < 3 or src[0] < src[1]):
          rest = [m for m in pool if m not in src]
          work.append((list(src), rest + [ck.primes(8, 30, 1)[0]]))
    work = work[::2] if ctx.quick else work
  else:
    for bits, k in itertools.product((12, 17, 20, 24, 28, 30, 31), (1, 2, 3, 5)):
      src = ck.primes(4, bits, k)
      for tb in (10, 20, 28, 31):
        tgt = [m for m in ck.primes(4, tb, k + 3) if m not in src][:3]
        work.append((src, tgt))
    work += [(ck.primes(4, 31, 1) + [17] + ck.primes(4, 20, 1), ck.primes(4, 28, 2)),
             (ck.primes(64, 30, 12), ck.primes(64, 31, 2))]
    work = work[int(part)::4]
  for src, tgt in work:
    q, k = math.prod(src), len(src)
    if q <= 60000:
      xs = list(range(q))
    else:
      xs = set()
      for c in (0, 1, 2, q // 2, q // 3, q - 1):
        xs |= {c, (c + 1) % q, (c - 1) % q}
      for m in src:
        for t in (1, m // 2, m - 1):
          xs |= {t * (q // m) % q, (t * (q // m) - 1) % q}
        xs |= {m, m - 1, m + 1, q - m}
      # residues with every byte extreme in one limb, the rest at their extremes
      for i, m in enumerate(src):
        for v in (0, 1, 255, 256, 65535, 65536, 0xFFFFFF, 0x1000000, m - 1, m - 2, m // 2):
          for other in (0, 1, -1):
            r = [(o + other) % o if other else 0 for o in src]
            r[i] = v % m
            # r are the scaled residues (x * qhat^-1), which is what gets summed
            xs.add(sum(rv * (q // o) for rv, o in zip(r, src)) % q)
      xs = sorted({x % q for x in xs})
    key = f"convert:{src}->{tgt}"
    with ctx.impl(key):
      chain = tgt[:1] + src + tgt[1:]
      si = list(range(1, 1 + k))
      ti = [0] + list(range(1 + k, len(chain)))
      kern = bc.BasisConversionBarrett()
      # several conversions in one kernel; ours must not depend on the others
      kern.precompute_constants(chain, [(ti[:1], si), (si, ti), (si[:1], ti), (si[::-1], ti[::-1]), (ti[-1:], si[-1:] + ti[:-1])])
      arr = np.array([[x % m for m in src] for x in xs], dtype=np.uint32)
      out = np.asarray(kern.basis_change(jnp.asarray(arr), control_index=1))
      ctx.check(out.shape == (len(xs), len(tgt)) and out.dtype == np.uint32, key, problem="shape", got=out.shape)
      xo = np.array(xs, dtype=object)
      ok = np.zeros(len(xs), dtype=bool)
      for u in range(k):
        w = np.stack([(xo + u * q) % p for p in tgt], axis=1)
        ok |= (w == out.astype(object)).all(axis=1)
      if not ok.all():
        i = int(np.argmin(ok))
        ctx.fail(key, x=str(xs[i]), got=out[i], want=[int(xs[i] % p) for p in tgt], note="no 0 <= u < limbs explains it")
      if k == 1:
        ctx.equal(key + ":exact", np.stack([xo % p for p in tgt], axis=1), out.astype(object))
      # the other registered conversions: exact from one limb; in another order of the limbs the same
      m = min(len(xs), 24)
      step = max(1, len(xs) // m)
      few = xs[::step][:m]
      fa = arr[::step][:m]
      for ci, one, to in ((0, tgt[0], src), (None, tgt[0], src), (2, src[0], tgt), (4, tgt[-1], src[-1:] + tgt[:-1])):
        vals = [x % one for x in few]
        a = jnp.asarray(np.array(vals, dtype=np.uint32)[:, None])
        got = kern.basis_change(a) if ci is None else kern.basis_change(a, control_index=ci)
        ctx.equal(key + f":conversion {ci}", np.array([[v % p for p in to] for v in vals], dtype=np.uint64), got)
      ctx.equal(key + ":conversion 3", out[::step][:m, ::-1], kern.basis_change(jnp.asarray(fa[:, ::-1].copy()), control_index=3))
      # leading shapes and the kernel as a jit argument
      m = min(len(xs), 6)
      lead = jnp.asarray(arr[:m].reshape((1, m, k)))
      ctx.equal(key + ":lead", out[:m][None], kern.basis_change(lead, control_index=1))
      leaves, tree = jax.tree_util.tree_flatten(kern)
      k2 = jax.tree_util.tree_unflatten(tree, leaves)
      ctx.equal(key + ":rebuilt", out[:m], k2.basis_change(jnp.asarray(arr[:m]), control_index=1))
      # a kernel set up again, for the reversed basis, forgets the first set-up
      kern.precompute_constants(chain[::-1], [(list(range(len(tgt) - 1, len(chain) - 1)), [len(chain) - 1] + list(range(len(tgt) - 2, -1, -1)))])
      again = kern.basis_change(jnp.asarray(arr[:m, ::-1].copy()), control_index=0)
      ctx.equal(key + ":set up again", out[:m], again)
    ctx.cover(states=len(xs), transitions=9, traces=len(xs))
    ctx.outcome((tuple(src), tuple(tgt)))


SHARDS = {"convert": run}


def shards(tier):
  return [("convert@small", {"part": "small"})] + [(f"convert@{i}", {"part": str(i)}) for i in range(4)]
