"""Circuits built from gates decrypt to their cleartext evaluation at any depth."""
import collections
import itertools

from mc.checks import c01

PROPERTY = "C02"
RULE = (
    "explicit-state search over a register machine whose steps are real gate calls "
    "on real ciphertexts: every op sequence up to the stated length from every "
    "initial assignment; closure of all (bit, producer, depth<=3) operand classes "
    "under every gate; long deterministic chains; every input of small arithmetic "
    "circuits.  In every state each register must decrypt to the cleartext model's "
    "bit and its noise must stay below the fixed bound (gate output noise does not "
    "depend on the noise or depth of the inputs)")
ASSUMPTIONS = ["noise values are those of the seeded sources"]


def sequences(ctx, init, length, ops):
  w = c01.world("small", 900 + ctx.seed)
  jb, p, sks = w.jb, w.p, w.sks
  menu = []
  for o in ops:
    if o == "not":
      menu += [("not", 0), ("not", 1)]
    elif o == "cmux":
      menu += [("cmux", 0), ("cmux", 1)]
    elif o == "copy":
      menu += [("copy", 0)]
    else:
      menu += [(o, 0), (o, 1)]

  def step(regs, bits, op):
    o, d = op
    x, y = regs[d], regs[1 - d]
    bx, by = bits[d], bits[1 - d]
    if o == "not":
      r, b = jb.not_(x, p), not bx
    elif o == "cmux":
      r, b = jb.cmux_(x, y, regs[2], sks, p), (bx if bits[2] else by)
    elif o == "copy":
      r, b = jb.lut1(y, 2, sks, p), by
    else:
      r, b = getattr(jb, o)(x, y, sks, p), bool(c01.GATES[o](bx, by))
    regs, bits = list(regs), list(bits)
    regs[d], bits[d] = r, b
    return regs, bits

  init_bits = [bool((init >> i) & 1) for i in range(3)]
  frontier = [([w.enc(b) for b in init_bits], init_bits, ())]
  ctx.state((tuple(init_bits), ()))
  for depth in range(length):
    nxt = []
    for regs, bits, hist in frontier:
      for op in menu:
        key = f"seq:{init}:" + ">".join(f"{o}{d}" for o, d in hist + (op,))
        with ctx.impl(key):
          r2, b2 = step(regs, bits, op)
          ok = w.verify(ctx, key, r2[op[1]], b2[op[1]])
          ctx.cover(transitions=1, traces=1)
          ctx.state((init, hist + (op,)))
          ctx.outcome(tuple(b2))
          if ok:
            nxt.append((r2, b2, hist + (op,)))
    frontier = nxt
  ctx.bound(length=length, ops=len(menu))
  ctx.sample({"init": init_bits, "history": [f"{o}{d}" for o, d in hist]} if frontier else {})


def closure(ctx, gate):
  w = c01.world("small", 930 + ctx.seed)
  jb, p, sks = w.jb, w.p, w.sks
  vals = {}
  for b in (False, True):
    vals[(b, "fresh", 0)] = w.enc(b)
    vals[(b, "const", 0)] = jb.constant(b, p)
  # close under not and one gate of each output polarity, three levels deep
  for depth in (1, 2, 3):
    for (b, kind, d), ct in list(vals.items()):
      if d == depth - 1:
        vals.setdefault((not b, "not", d), jb.not_(ct, p))
        t = vals[(True, "fresh", 0)]
        vals.setdefault((b, "gate", depth), jb.and_(ct, t, sks, p))
        vals.setdefault((not b, "gate", depth), jb.xor_(ct, t, sks, p))
        vals.setdefault((not b, "notgate", depth),
                        jb.not_(vals[(b, "gate", depth)], p))
  for v, ct in vals.items():
    ctx.state(v)
    w.verify(ctx, f"closure:build:{v}", ct, v[0])
  for (v1, c1), (v2, c2) in itertools.product(vals.items(), repeat=2):
    key = f"closure:{gate}:{v1}:{v2}"
    with ctx.impl(key):
      r = getattr(jb, gate)(c1, c2, sks, p)
      w.verify(ctx, key, r, c01.GATES[gate](v1[0], v2[0]))
    ctx.cover(states=1, transitions=1, traces=1)
    ctx.outcome((v1[0], v2[0]))


def chain(ctx, pset, steps):
  """Every prefix of a long history is checked."""
  w = c01.world(pset, 960 + ctx.seed)
  jb, p, sks = w.jb, w.p, w.sks
  names = list(c01.GATES)
  regs = [w.enc(False), w.enc(True), w.enc(True)]
  bits = [False, True, True]
  worst = 0
  for i in range(steps):
    g = names[i % len(names)]
    d, e = i % 3, (i + 1 + i // 7) % 3
    key = f"chain:{pset}:{i}"
    with ctx.impl(key):
      if i % 11 == 10:
        regs[d] = jb.cmux_(regs[0], regs[1], regs[2], sks, p)
        bits[d] = bits[0] if bits[2] else bits[1]
      elif i % 5 == 4:
        tt = (37 * i + 11) % 256
        idx = 4 * bits[2] + 2 * bits[1] + bits[0]
        regs[d] = jb.lut3(regs[0], regs[1], regs[2], tt, sks, p)
        bits[d] = bool((tt >> idx) & 1)
      else:
        regs[d] = getattr(jb, g)(regs[d], regs[e], sks, p)
        bits[d] = bool(c01.GATES[g](bits[d], bits[e]))
      if not w.verify(ctx, key, regs[d], bits[d]):
        return
      worst = max(worst, abs(w.noise(regs[d], bits[d])))
    ctx.cover(states=1, transitions=1, traces=1)
    ctx.outcome(tuple(bits))
  ctx.sample({"params": pset, "worst noise over the history": worst})


def arithmetic(ctx):
  """2-bit adder, comparator and multiplexer tree on every input."""
  w = c01.world("small", 990 + ctx.seed)
  jb, p, s = w.jb, w.p, w.sks
  for x, y in itertools.product(range(4), repeat=2):
    key = f"adder:{x}+{y}"
    with ctx.impl(key):
      xs = [w.enc(bool(x >> i & 1)) for i in range(2)]
      ys = [w.enc(bool(y >> i & 1)) for i in range(2)]
      carry = jb.constant(False, p)
      out = []
      for i in range(2):
        out.append(jb.lut3(xs[i], ys[i], carry, 0b10010110, s, p))
        carry = jb.lut3(xs[i], ys[i], carry, 0b11101000, s, p)
      out.append(carry)
      for i, ct in enumerate(out):
        w.verify(ctx, f"{key}:bit{i}", ct, (x + y) >> i & 1)
      # x > y, gates only
      gt1 = jb.andyn_(xs[1], ys[1], s, p)
      eq1 = jb.xnor_(xs[1], ys[1], s, p)
      gt0 = jb.andyn_(xs[0], ys[0], s, p)
      gt = jb.or_(gt1, jb.and_(eq1, gt0, s, p), s, p)
      w.verify(ctx, f"gt:{x},{y}", gt, x > y)
      mx = [jb.cmux_(xs[i], ys[i], gt, s, p) for i in range(2)]
      for i, ct in enumerate(mx):
        w.verify(ctx, f"max:{x},{y}:bit{i}", ct, max(x, y) >> i & 1)
    ctx.cover(states=3, transitions=11, traces=6)
    ctx.outcome((x + y, x > y))


SHARDS = {"sequences": sequences, "closure": closure, "chain": chain,
          "arithmetic": arithmetic}


def shards(tier):
  out = []
  if tier == "quick":
    ops, length = ["and_", "xor_", "orny_", "not", "cmux"], 3
  else:
    ops, length = list(c01.GATES) + ["not", "cmux", "copy"], 3
  out += [(f"sequences@{i}", {"init": i, "length": length, "ops": ops})
          for i in range(8)]
  out += [(f"closure@{g}", {"gate": g}) for g in c01.GATES]
  out += [("arithmetic", {})]
  out += [(f"chain@{n}", {"pset": n, "steps": k if tier == "quick" else 5 * k})
          for n, k in (("small", 400), ("k3", 300), ("test", 120), ("unroll", 80))]
  return out
