#!/usr/bin/env python3
"""Runs a check:  run.py C01 [--tier quick|thorough] [--shard NAME] [--replay FILE].

Exit 0: the property held on everything explored.  Exit 1: at least one violation,
named on a line "VIOLATION property=<id> replay=<path>".  Exit 2: the check itself failed.
"""
import argparse
import concurrent.futures
import importlib
import json
import os
import queue
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def known_findings(prop):
  """[(key, text)] of the listed, unrepaired findings of `prop`."""
  out = []
  path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
  if os.path.exists(path):
    for line in open(path, encoding="utf-8"):
      line = line.strip()
      # finding: property=C01 key=<exact failing case> :: description
      if line.startswith("finding: property=" + prop + " "):
        rest = line.split(" ", 2)[2]
        key, _, text = rest.partition(" :: ")
        out.append((key.removeprefix("key="), text))
  return out


def worker_env(extra):
  env = dict(os.environ)
  env.update(
      PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", JAX_PLATFORMS="cpu",
      XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
      OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
      TF_CPP_MIN_LOG_LEVEL="3", PYTHONUNBUFFERED="1",
  )
  env.pop("PYTHONPATH", None)
  for k, v in extra.items():
    if k == "XLA_FLAGS+":
      env["XLA_FLAGS"] = v + " " + env["XLA_FLAGS"]
    else:
      env[k] = v
  return env


SLOTS = queue.SimpleQueue()  # free cores
# set by tools/mutate.py: stop after the first shard that fails; leave no files
FAILFAST = bool(os.environ.get("VERIF_FAILFAST"))
NO_FILES = bool(os.environ.get("VERIF_SCRATCH_OUT"))
FAILED = []


def run_worker(*args):
  """One worker at a time per core: XLA's thread pools do not pay here."""
  core = SLOTS.get()
  try:
    if FAILED:
      return {
          "shard": args[1], "states": 0, "transitions": 0, "traces": 0,
          "outcomes": 0, "top_outcomes": {}, "samples": [], "bounds": {},
          "failures": [], "n_failures": 0, "wall_s": 0, "error": "skipped"}
    r = _run_worker(core, *args)
    if FAILFAST and r["n_failures"]:
      FAILED.append(r["shard"])
    return r
  finally:
    SLOTS.put(core)


def _run_worker(core, check, shard, kwargs, tier, seed, scratch, env, limit):
  out = os.path.join(scratch, f"{shard.replace('/', '_')}.json")
  log = out + ".log"
  t0 = time.time()
  with open(log, "wb") as f:
    p = subprocess.Popen(
        [PY, os.path.join(HERE, "mc", "worker.py"), check, shard,
         json.dumps(kwargs), tier, str(seed), out],
        stdout=f, stderr=subprocess.STDOUT, env=env, cwd=scratch,
        start_new_session=True,
        preexec_fn=lambda: os.sched_setaffinity(0, core) if core else None,
    )
    try:
      p.wait(limit)
      timeout = False
    except subprocess.TimeoutExpired:
      timeout = True
    try:
      os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
      pass
    p.wait()
  if os.path.exists(out):
    return json.load(open(out, encoding="utf-8"))
  tail = open(log, "rb").read()[-3000:].decode("utf-8", "replace")
  return {
      "shard": shard, "states": 0, "transitions": 0, "traces": 0,
      "outcomes": 0, "top_outcomes": {}, "samples": [], "bounds": {},
      "failures": [], "n_failures": 0, "wall_s": time.time() - t0,
      "error": (f"shard timed out after {limit} s\n" if timeout else
                f"shard died with {p.returncode}\n") + tail,
  }


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("check", nargs="?")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  ap.add_argument("--shard")
  ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
  ap.add_argument("--replay")
  a = ap.parse_args()
  if a.tier not in ("quick", "thorough"):
    a.tier = "quick"
  seed = int(os.environ.get("VERIF_SEED", "1") or 1)
  replay = None
  if a.replay:
    replay = json.load(open(a.replay, encoding="utf-8"))
    a.check, a.shard, a.tier, seed = (
        replay["property"], replay["shard"], replay["tier"], replay["seed"])
  check = a.check.upper()
  t0 = time.time()
  os.environ.setdefault("JAX_PLATFORMS", "cpu")
  module = importlib.import_module(f"mc.checks.{check.lower()}")
  if hasattr(module, "shards"):
    shards = list(module.shards(a.tier))
  else:
    shards = [(s, {}) for s in module.SHARDS]
  if a.shard:
    shards = [s for s in shards if s[0] == a.shard]
    if not shards:
      print("no such shard", file=sys.stderr)
      return 2
  env = worker_env(getattr(module, "ENV", {}))
  limit = int(os.environ.get("VERIF_LIMIT", "820" if a.tier == "quick" else "21600"))
  cpus = sorted(os.sched_getaffinity(0))
  pin = getattr(module, "PIN", True)
  for i in range(a.jobs):
    SLOTS.put({cpus[i % len(cpus)]} if pin else None)
  scratch = tempfile.mkdtemp(prefix=f"verif-{check}-")
  try:
    with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
      results = list(ex.map(
          lambda s: run_worker(check, s[0], s[1], a.tier, seed, scratch, env, limit),
          shards))
  finally:
    shutil.rmtree(scratch, ignore_errors=True)

  known = dict(known_findings(check))
  failures, known_hit, errors = [], {}, []
  for r in results:
    if r["error"]:
      errors.append((r["shard"], r["error"]))
    for f in r["failures"]:
      if f["key"] in known:
        known_hit[f["key"]] = known[f["key"]]
      else:
        failures.append((r["shard"], f))

  if replay:
    for s, f in failures:
      if f["key"] == replay["key"]:
        print(json.dumps(f, indent=1))
        print("REPRODUCED", f["key"])
        return 1
    print("not reproduced")
    return 0

  # -- evidence -----------------------------------------------------------
  cov = {
      "states": sum(r["states"] for r in results),
      "transitions": sum(r["transitions"] for r in results),
      "traces_validated_against_impl": sum(r["traces"] for r in results),
      "distinct_outcomes": sum(r["outcomes"] for r in results),
      "exhaustive": not errors,
      "rule": module.RULE,
      "samples": [s for r in results for s in r["samples"][:2]][:12],
      "shards": [
          {k: r[k] for k in ("shard", "states", "transitions", "traces",
                             "outcomes", "top_outcomes", "bounds", "wall_s")}
          for r in results],
  }
  if not a.shard and not NO_FILES:
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": check, "tier": a.tier, "seed": seed,
        "level": getattr(module, "LEVEL", "model_checking"), "coverage": cov,
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": sum(r["n_failures"] for r in results) - len(known_hit),
    }
    with open(os.path.join(HERE, "evidence", f"{check}.json"), "w", encoding="utf-8") as f:
      json.dump(ev, f, indent=1)
  for r in results:
    print(f"  {r['shard']:<34} states={r['states']:<9} transitions="
          f"{r['transitions']:<9} traces={r['traces']:<8} failures="
          f"{r['n_failures']} {r['wall_s']:.1f}s")
  print(f"{check} {a.tier}: states={cov['states']} transitions={cov['transitions']} "
        f"traces={cov['traces_validated_against_impl']} wall={time.time() - t0:.1f}s")
  for k, text in known_hit.items():
    print(f"KNOWN-FINDING: property={check} {k} {text}")
  if failures:
    d = os.path.join(HERE, "replays")
    if NO_FILES:
      d = os.path.join(tempfile.gettempdir(), "verif-replays")
    os.makedirs(d, exist_ok=True)
    for i, (s, f) in enumerate(failures[:5]):
      path = os.path.join(d, f"{check}-{i}.json")
      with open(path, "w", encoding="utf-8") as fh:
        json.dump({"property": check, "shard": s, "tier": a.tier, "seed": seed,
                   "key": f["key"], "detail": f["detail"],
                   "replay_with": f"/opt/venv/bin/python mc/run.py --replay {path}"},
                  fh, indent=1)
      print(f"  [{s}] {f['key']}: {json.dumps(f['detail'])[:700]}")
      print(f"VIOLATION property={check} replay={path}")
    return 1
  if errors:
    for s, e in errors:
      print(f"ERROR in shard {s}:\n{e}", file=sys.stderr)
    return 2
  return 0


if __name__ == "__main__":
  sys.exit(main())
