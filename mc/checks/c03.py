"""Parallel look-up tables equal the sequential ones, element by element."""
import itertools

from mc.checks import c01

PROPERTY = "C03"
ENV = {"XLA_FLAGS+": "--xla_force_host_platform_device_count=8"}
PIN = False
RULE = (
    "every batch size up to the number of devices, every position of every "
    "(inputs, truth table) combination of a rotating schedule: row i of the parallel "
    "result decrypts to row i's truth table entry; row order, operand order and "
    "per-row truth tables are all distinguished")


def lut3(ctx, lo, hi):
  import numpy as np
  w = c01.world("k3", 1200 + ctx.seed)
  jb, p = w.jb, w.p
  ct = {b: [w.enc(b), (jb.or_ if b else jb.and_)(w.enc(True), w.enc(False), w.sks, p)]
        for b in (False, True)}
  tables = [0b11001010, 0b11101000, 0b10010110, 0b00000001, 0b10000000, 0b01110100, 0, 255,
            0b00001111, 0b00110011, 0b01010101]
  combos = [(tt, a, b, c) for tt in tables for a, b, c in itertools.product((0, 1), repeat=3)]
  for n in range(lo, hi + 1):
    # slide a window so that every combination occurs (for n >= 2 next to different ones)
    stride = max(1, n)
    for start in range(0, len(combos), stride):
      rows = [combos[(start + i * (1 if n < 3 else 5)) % len(combos)] for i in range(n)]
      key = f"pmap_lut3:{n}:{start}"
      with ctx.impl(key, rows=rows):
        args = [(ct[bool(a)][i % 2], ct[bool(b)][(i + 1) % 2], ct[bool(c)][0], tt)
                for i, (tt, a, b, c) in enumerate(rows)]
        out = np.asarray(jb.pmap_lut3(args, w.sks, p))
        if ctx.check(out.shape == (n, p.scheme_params.lwe_dimension + 1), key,
                     problem="shape", got=out.shape):
          for i, (tt, a, b, c) in enumerate(rows):
            w.verify(ctx, f"{key}:row{i}", out[i], (tt >> (4 * c + 2 * b + a)) & 1,
                     row=rows[i])
            ctx.outcome((tt, a, b, c))
      ctx.cover(states=n, transitions=n, traces=n)
    # sequential and parallel agree exactly on the same ciphertexts
    rows = combos[:n]
    with ctx.impl(f"pmap_lut3:{n}:same"):
      args = [(ct[bool(a)][0], ct[bool(b)][0], ct[bool(c)][0], tt) for tt, a, b, c in rows]
      out = np.asarray(jb.pmap_lut3(args, w.sks, p))
      for i, arg in enumerate(args):
        ctx.equal(f"pmap_lut3:{n}:same:{i}", jb.lut3(*arg, w.sks, p), out[i])
        ctx.cover(transitions=2, traces=1)
  ctx.sample({"batch": n, "rows": rows})


def lut2(ctx, lo, hi):
  import numpy as np
  w = c01.world("k3", 1300 + ctx.seed)
  jb, p = w.jb, w.p
  ct = {b: [w.enc(b), (jb.or_ if b else jb.and_)(w.enc(True), w.enc(False), w.sks, p)]
        for b in (False, True)}
  combos = [(tt, a, b) for tt in range(16) for a, b in itertools.product((0, 1), repeat=2)]
  for n in range(lo, hi + 1):
    for start in range(0, len(combos), n):
      rows = [combos[(start + i * (1 if n < 3 else 5)) % len(combos)] for i in range(n)]
      key = f"pmap_lut2:{n}:{start}"
      with ctx.impl(key, rows=rows):
        args = [(ct[bool(a)][i % 2], ct[bool(b)][0], tt) for i, (tt, a, b) in enumerate(rows)]
        out = np.asarray(jb.pmap_lut2(args, w.sks, p))
        if ctx.check(out.shape == (n, p.scheme_params.lwe_dimension + 1), key,
                     problem="shape", got=out.shape):
          for i, (tt, a, b) in enumerate(rows):
            w.verify(ctx, f"{key}:row{i}", out[i], (tt >> (2 * b + a)) & 1, row=rows[i])
            ctx.outcome((tt, a, b))
      ctx.cover(states=n, transitions=n, traces=n)
    rows = combos[n:2 * n]
    with ctx.impl(f"pmap_lut2:{n}:same"):
      args = [(ct[bool(a)][0], ct[bool(b)][0], tt) for tt, a, b in rows]
      out = np.asarray(jb.pmap_lut2(args, w.sks, p))
      for i, arg in enumerate(args):
        ctx.equal(f"pmap_lut2:{n}:same:{i}", jb.lut2(*arg, w.sks, p), out[i])
        ctx.cover(transitions=2, traces=1)
  ctx.sample({"batch": n, "rows": rows})


SHARDS = {"lut3": lut3, "lut2": lut2}


def shards(tier):
  out = []
  for n in range(1, 9):
    out += [(f"lut3@{n}", {"lo": n, "hi": n}), (f"lut2@{n}", {"lo": n, "hi": n})]
  return out
