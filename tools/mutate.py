#!/usr/bin/env python3
"""Looks for gaps: applies small mutations to scratch copies of the code and runs the checks on them.

  mutate.py FILE[,FILE...] CHECK[,CHECK...] --count N --seed S [--jobs J] [--list]

Survivors are printed with the mutated line. Nothing in /repo is touched. Not part of any check.
"""
import argparse
import ast
import concurrent.futures
import os
import queue
import random
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
BIN = {ast.Add: "-", ast.Sub: "+", ast.LShift: ">>", ast.RShift: "<<", ast.FloorDiv: "*", ast.Mult: "+", ast.Mod: "//", ast.BitAnd: "|"}
DT = {"uint64": "uint32", "int64": "int32", "uint32": "uint16", "int32": "uint32", "float64": "float32", "int8": "uint8", "uint8": "int8"}


def mutants(src):
  tree = ast.parse(src)
  lines = src.split("\n")
  offs = [0]
  for l in lines:
    offs.append(offs[-1] + len(l.encode()) + 1)
  b = src.encode()
  pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
  out = []

  def sub(lo, hi, new, n, what):
    m = b[:lo] + new.encode() + b[hi:]
    if m != b:
      out.append((n.lineno, what, m.decode()))

  text = lambda n: b[pos(n)[0]:pos(n)[1]].decode()
  skip = set()
  for n in ast.walk(tree):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
      skip.add(n.body[0].value)
    if isinstance(n, (ast.Raise, ast.JoinedStr)):
      for k in ast.walk(n):
        skip.add(k)
    if isinstance(n, (ast.FunctionDef,)):
      for a in n.args.args + n.args.kwonlyargs:
        if a.annotation:
          for k in ast.walk(a.annotation):
            skip.add(k)
      if n.returns:
        for k in ast.walk(n.returns):
          skip.add(k)
    if isinstance(n, ast.AnnAssign):
      for k in ast.walk(n.annotation):
        skip.add(k)
  for n in ast.walk(tree):
    if n in skip:
      continue
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
      lo, hi = pos(n.left)[1], pos(n.comparators[0])[0]
      seg = b[lo:hi].decode()
      if re.fullmatch(r"\s*(<=|>=|==|!=|<|>)\s*", seg):
        sub(lo, hi, re.sub(r"<=|>=|==|!=|<|>", CMP[type(n.ops[0])], seg), n, "cmp")
    elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
      lo, hi = pos(n.left)[1], pos(n.right)[0]
      seg = b[lo:hi].decode()
      if re.fullmatch(r"\s*(//|<<|>>|[-+*%&])\s*", seg):
        sub(lo, hi, re.sub(r"//|<<|>>|[-+*%&]", BIN[type(n.op)], seg), n, "bin")
        if isinstance(n.op, ast.Mod):
          lo2, hi2 = pos(n)
          sub(lo2, hi2, text(n.left), n, "drop mod")
    elif isinstance(n, ast.Constant) and type(n.value) is int:
      for d in (1, -1):
        sub(*pos(n), str(n.value + d) if n.value + d >= 0 else f"({n.value + d})", n, f"const{d:+d}")
    elif isinstance(n, ast.Constant) and type(n.value) is bool:
      sub(*pos(n), str(not n.value), n, "bool")
    elif isinstance(n, ast.BoolOp) and len(n.values) == 2:
      lo, hi = pos(n.values[0])[1], pos(n.values[1])[0]
      seg = b[lo:hi].decode()
      sub(lo, hi, seg.replace("and", "or") if isinstance(n.op, ast.And) else seg.replace("or", "and"), n, "bool op")
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)) and not isinstance(n.operand, ast.Constant):
      sub(*pos(n), text(n.operand), n, "unary")
    elif isinstance(n, (ast.If, ast.IfExp)):
      for v in ("True", "False"):
        sub(*pos(n.test), v, n.test, f"if {v}")
    elif isinstance(n, ast.Call) and len(n.args) >= 2:
      for i in range(len(n.args) - 1):
        x, y = n.args[i], n.args[i + 1]
        if isinstance(x, ast.Starred) or isinstance(y, ast.Starred):
          continue
        mid = b[pos(x)[1]:pos(y)[0]].decode()
        sub(pos(x)[0], pos(y)[1], text(y) + mid + text(x), n, f"swap args {i}")
    elif isinstance(n, ast.Attribute) and n.attr in DT:
      lo, hi = pos(n)
      sub(hi - len(n.attr), hi, DT[n.attr], n, "dtype")
    elif isinstance(n, ast.AugAssign):
      sub(*pos(n), "pass", n, "drop aug")
    elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
      sub(*pos(n), "pass", n, "drop call")
    elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
      s = n.slice
      for part in (s.lower, s.upper):
        if part is not None and not isinstance(part, ast.Constant):
          sub(*pos(part), f"({text(part)}) + 1", n, "slice+1")
          sub(*pos(part), f"({text(part)}) - 1", n, "slice-1")
  return out


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("files")
  ap.add_argument("checks")
  ap.add_argument("--count", type=int, default=20)
  ap.add_argument("--seed", type=int, default=1)
  ap.add_argument("--par", type=int, default=4)
  ap.add_argument("--repo", default="/repo")
  ap.add_argument("--only")
  a = ap.parse_args()
  rng = random.Random(a.seed)
  all_m = []
  for f in a.files.split(","):
    src = open(os.path.join(a.repo, f), encoding="utf-8").read()
    all_m += [(f, *m) for m in mutants(src)]
  if a.only:
    all_m = [m for m in all_m if re.search(a.only, f"{m[0]}:{m[1]}:{m[2]}")]
  total = len(all_m)
  rng.shuffle(all_m)
  all_m = all_m[:a.count]
  dirs = queue.SimpleQueue()
  base = f"/tmp/mut.{os.getpid()}"
  os.makedirs(base)
  for i in range(a.par):
    d = f"{base}/{i}"
    subprocess.check_call(["cp", "-a", a.repo, d])
    dirs.put(d)

  def one(m):
    f, line, what, text = m
    d = dirs.get()
    p = os.path.join(d, f)
    orig = open(p, encoding="utf-8").read()
    t0 = time.time()
    try:
      open(p, "w", encoding="utf-8").write(text)
      verdict = "SURVIVED"
      for c in a.checks.split(","):
        r = subprocess.run(["/opt/venv/bin/python", os.path.join(HERE, "mc", "run.py"), c, "--jobs", str(max(1, 8 // a.par))],
                           env=dict(os.environ, VERIF_REPO=d, VERIF_FAILFAST="1", VERIF_LIMIT="500", VERIF_SCRATCH_OUT="1"), capture_output=True, text=True)
        if r.returncode == 1 and f"VIOLATION property={c}" in r.stdout:
          verdict = "caught " + c
          break
        if r.returncode:
          verdict = f"ERROR {c} rc={r.returncode} {r.stdout[-200:]!r}"
          break
      return m, verdict, time.time() - t0
    finally:
      open(p, "w", encoding="utf-8").write(orig)
      dirs.put(d)

  try:
    n = {"caught": 0, "other": 0}
    with concurrent.futures.ThreadPoolExecutor(a.par) as ex:
      for (f, line, what, text), verdict, s in ex.map(one, all_m):
        n["caught" if verdict.startswith("caught") else "other"] += 1
        if not verdict.startswith("caught"):
          old = open(os.path.join(a.repo, f), encoding="utf-8").read().split("\n")
          new = text.split("\n")
          i = next((i for i, (x, y) in enumerate(zip(old, new)) if x != y), line - 1)
          print(f"{verdict} [{s:.0f}s] {f}:{i + 1} {what}\n    - {old[i].strip()}\n    + {new[i].strip()}", flush=True)
    print(f"{a.files}: {n['caught']} of {len(all_m)} caught ({total} possible)", flush=True)
  finally:
    shutil.rmtree(base, ignore_errors=True)


main()
