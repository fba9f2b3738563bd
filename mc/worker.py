"""Runs one shard of one check in this process."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from mc import core  # pylint: disable=g-import-not-at-top


def main():
  check, shard, kwargs, tier, seed, out = sys.argv[1:7]
  core.setup_imports()
  module = importlib.import_module(f"mc.checks.{check.lower()}")
  result = core.run_shard_here(module, shard, json.loads(kwargs), tier, int(seed))
  with open(out + ".tmp", "w", encoding="utf-8") as f:
    json.dump(result, f, default=repr)
  os.replace(out + ".tmp", out)
  sys.stdout.flush()
  sys.stderr.flush()
  os._exit(0)  # do not wait for XLA's threads


if __name__ == "__main__":
  main()
