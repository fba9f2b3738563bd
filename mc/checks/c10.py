"""Modulus switching and key switching keep the message, with bounded added noise."""
import itertools

PROPERTY = "C10"
RULE = (
    "modulus switch: every (input, output) modulus pair, every coefficient value of "
    "narrow moduli and all rounding boundaries of 32-bit ones; key switch: every pair of "
    "input/output keys of small dimension x every (base, levels) x digit-boundary masks; "
    "phases compared with exact rational rounding / the input phase within the "
    "worst-case truncation and noise bound (exactly, when that bound is zero)")
M32 = (1 << 32) - 1


def trunc_bound(b, l):
  r = 32 % b
  unit = 1 << (32 - l * b)
  base = 1 << b
  return (base // 2) * (unit - (1 << r)) // (base - 1) + ((1 << r) >> 1)


def modulus(ctx):
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_cggi import lwe
  for lin in range(1, 33):
    for lout in range(1, lin + 1):
      if lin - lout > 31:
        continue
      if lin <= 12:
        xs = np.arange(1 << lin, dtype=np.uint64)
      else:
        d = 1 << (lin - lout)
        pts = {0, (1 << lin) - 1}
        for q in sorted({0, 1, 2, (1 << lout) - 1, (1 << lout) - 2, (1 << lout) // 2, (1 << lout) // 3} ):
          for t in (-1, 0, 1):
            pts |= {(q * d + t), (q * d + d // 2 + t)}
        xs = np.array(sorted(p for p in pts if 0 <= p < (1 << lin)), dtype=np.uint64)
      key = f"modswitch:{lin}->{lout}"
      with ctx.impl(key):
        got = lwe.switch_modulus(jnp.asarray(xs.astype(np.uint32)), lin, lout)
        d = 1 << (lin - lout)
        want = ((xs + np.uint64(d // 2)) // np.uint64(d)) % np.uint64(1 << lout) if d > 1 else xs
        ctx.equal(key, want, np.asarray(got).astype(np.uint64))
      ctx.cover(states=len(xs), transitions=1, traces=len(xs))
      ctx.outcome((lin, lout))


def modulus_phase(ctx):
  """Whole ciphertexts: the phase is scaled with error at most (dim+1)/2."""
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_cggi import lwe
  from mc import cggi
  for dim in (1, 2, 4, 7):
    keys = list(itertools.product((0, 1), repeat=dim)) if dim <= 4 else [(1,) * dim, (1, 0) * 3 + (1,)]
    for lout in (3, 5, 10, 11):
      for salt in range(40):
        ct = np.array(cggi.words(dim + 1, salt), dtype=np.uint32)
        with ctx.impl(f"modphase:d{dim}"):
          out = np.asarray(lwe.switch_modulus(jnp.asarray(ct), 32, lout))
          for bits in keys:
            ph = int(cggi.lwe_phase(ct, bits))
            ph2 = int(cggi.lwe_phase(out, bits)) % (1 << lout)
            # scaled up to avoid fractions
            err = (ph2 * (1 << (32 - lout)) - ph + (1 << 31)) % (1 << 32) - (1 << 31)
            ctx.check(abs(err) <= (1 + sum(bits)) * (1 << (31 - lout)), f"modphase:d{dim}",
                      ct=ct, key_bits=bits, error=err)
            ctx.cover(states=1, traces=1)
        ctx.cover(transitions=1)
      ctx.outcome((dim, lout))


def keyswitch(ctx, cfgs):
  import jax
  import jax.numpy as jnp
  import numpy as np
  from jaxite.jaxite_cggi import decomposition
  from jaxite.jaxite_cggi import key_switch
  from jaxite.jaxite_cggi import lwe
  from jaxite.jaxite_cggi import parameters
  from mc import cggi
  for b, l in cfgs:
    dp = decomposition.DecompositionParameters(b, l)
    B = 1 << b
    dig = sorted({0, 1, B // 2 - 1, B // 2, B - 1} & set(range(B)))
    alpha = set()
    for d1, d2 in itertools.product(dig, repeat=2):
      x = 0
      for i in range(32 // b + 1):
        x = (x << b) | (d1 if i % 2 else d2)
      alpha |= {x & M32, (x << 1) & M32, (x | 1) & M32}
    alpha = sorted(alpha | {0, 1, 1 << 31, M32, (1 << 31) - 1})
    for din, dout in ((1, 1), (1, 3), (2, 2), (3, 1), (4, 2)):
      kin = list(itertools.product((0, 1), repeat=din))
      kout = list(itertools.product((0, 1), repeat=dout))
      if ctx.quick and din * dout > 4:
        kin = kin[::3] + [kin[-1]]
        kout = kout[::2] + [kout[-1]]
      # every alphabet word in every position, the others cycling through it
      cts = []
      for i, a in enumerate(alpha):
        for pos in range(din):
          row = [alpha[(i * 7 + 3 * j + 1) % len(alpha)] for j in range(din)] + [alpha[(i * 5 + 2) % len(alpha)]]
          row[pos] = a
          cts.append(row)
      cts = np.array(cts, dtype=np.uint32)
      pin = parameters.SchemeParameters(din, 2 ** 32, 1, 4)
      pout = parameters.SchemeParameters(dout, 2 ** 32, 1, 4)
      for ki, ko, noise in itertools.product(kin, kout, (0, 5)):
        if noise and (sum(ki) + sum(ko)) % 2 and ctx.quick:
          continue
        key = f"keyswitch:b{b}l{l}:{din}->{dout}"
        with ctx.impl(key):
          src = cggi.Script(uniform=cggi.words(509, 3), normal=[noise, -noise, noise, noise, 0])
          ski = lwe.gen_key(pin, cggi.Script(sk=ki))
          sko = lwe.gen_key(pout, cggi.Script(sk=ko))
          ksk = key_switch.gen_key(dp, src, ski, sko)
          ctx.check(ksk.key_data.shape == (din, l, dout + 1) and ksk.lwe_size == dout + 1
                    and ksk.lwe_dimension == dout and ksk.decomposition_log_base == b
                    and ksk.decomposition_level_count == l, key + ":shape", got=ksk.key_data.shape)
          outs = np.asarray(jax.vmap(lambda c: key_switch.switch_key(ksk, c))(jnp.asarray(cts))).astype(np.uint32)
          ctx.check(outs.shape == (len(cts), dout + 1), key + ":shape", got=outs.shape)
          koa = np.array(ko, dtype=np.uint64)
          kia = np.array(ki, dtype=np.uint64)
          phin = (cts[:, -1].astype(np.uint64) - (cts[:, :-1].astype(np.uint64) * kia).sum(1)) & np.uint64(M32)
          phout = (outs[:, -1].astype(np.uint64) - (outs[:, :-1].astype(np.uint64) * koa).sum(1)) & np.uint64(M32)
          err = np.abs(((phout - phin) & np.uint64(M32)).astype(np.uint32).view(np.int32).astype(np.int64))
          lim = sum(ki) * trunc_bound(b, l) + din * l * (B // 2) * noise
          if not (err <= lim).all():
            i = int(np.argmax(err))
            ctx.fail(key, ct=cts[i], key_in=ki, key_out=ko, noise=noise, error=int(err[i]), bound=lim)
        ctx.cover(states=len(cts), transitions=1, traces=len(cts))
      ctx.outcome((b, l, din, dout))
  ctx.sample({"configurations": cfgs})


SHARDS = {"modulus": modulus, "modulus_phase": modulus_phase, "keyswitch": keyswitch}


def shards(tier):
  out = [("modulus", {}), ("modulus_phase", {})]
  groups = [[(4, 8), (4, 5)], [(8, 4), (8, 1)], [(2, 16), (2, 3)], [(5, 6), (3, 10)], [(1, 32), (16, 2)]]
  if tier == "thorough":
    groups += [[(b, l)] for b in range(1, 17) for l in range(1, 32 // b + 1)
               if (b, l) not in sum(groups, [])]
  return out + [(f"keyswitch@{i}", {"cfgs": g}) for i, g in enumerate(groups)]
