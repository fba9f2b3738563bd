#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import props  # pylint: disable=wrong-import-position

NA = []

with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as f:
  for p in props.P:
    assert len(p["title"]) <= 80, p["id"]
    f.write(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "hook_needed": None},
    }) + "\n")

checks = []
for p in props.P:
  path = os.path.join(ROOT, "mc", "checks", p["id"].lower() + ".py")
  assert os.path.exists(path), path
  cmd = f"/opt/venv/bin/python mc/run.py {p['id']} --tier "
  checks.append({
      "property": p["id"], "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
      "evidence_file": f"evidence/{p['id']}.json",
      "technique": p["technique"] or "model checking: bounded exhaustive exploration of the real code against a reference model",
      "level": "model_checking",
      "level_note": p["note"] + " Nothing is claimed beyond the bounds recorded in the evidence file; "
                    "trusts the Python reference model, CPython, NumPy and JAX's CPU backend.",
  })
manifest = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c \"import jax, numpy; print(jax.__version__, numpy.__version__)\"",
    "checks": checks,
    "not_applicable": NA,
    "notes": "No hooks in /repo: randomness is scripted through the library's own RandomSource interface. "
             "Fix commits and findings: KNOWN_FINDINGS.txt. Design: DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
  json.dump(manifest, f, indent=1)
  f.write("\n")

# -- DESIGN.md: the generated sections are filled from the same data ----------------------
import ast
import re

design = open(os.path.join(HERE, "DESIGN.in.md"), encoding="utf-8").read()
out = ["## Properties and how each is decided\n"]
for p in props.P:
  tree = ast.parse(open(os.path.join(ROOT, "mc", "checks", p["id"].lower() + ".py"), encoding="utf-8").read())
  ns = {}
  for n in tree.body:
    if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "ASSUMPTIONS"):
      ns[n.targets[0].id] = ast.literal_eval(n.value)
  out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n"
             f"*Explored:* {ns['RULE']}.\n\n*Quantifier:* {p['text']}.\n\n*Beyond the tests:* {p['why']}\n\n*Assurance:* {p['note']}"
             + (f" Assumes: {'; '.join(ns['ASSUMPTIONS'])}." if ns.get("ASSUMPTIONS") else "") + "\n")
design = design.replace("@@PROPERTIES@@", "\n".join(out))
fixed = [l.strip() for l in open(os.path.join(ROOT, "KNOWN_FINDINGS.txt"), encoding="utf-8") if re.match("(fixed|finding):", l)]
design = design.replace("@@FINDINGS@@", "\n".join("* " + l for l in fixed))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
sd = os.path.join(ROOT, "seeded")
notes = json.load(open(os.path.join(HERE, "seeded_notes.json"), encoding="utf-8"))
for d in sorted(os.listdir(sd)):
  m = json.load(open(os.path.join(sd, d, "meta.json"), encoding="utf-8"))
  rows.append(f"| {d} | {m['property']} | {m['needs']} | {notes.get(d, 'not run')} |")
design = design.replace("@@SEEDED@@", "\n".join(rows))
with open(os.path.join(ROOT, "DESIGN.md"), "w", encoding="utf-8") as f:
  f.write(design)
