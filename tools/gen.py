#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True
from props import PROPS, NA
import subprocess
have = set()
for l in subprocess.run([os.path.join(V, "check"), "--list"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    have |= set(eval(l[l.index("["):l.index("]") + 1]))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS + [n["prop"] for n in NA]:
        d = {k: p[k] for k in ("id", "title", "statement")}
        assert len(d["title"]) <= 80, d["title"]
        d["quantifier"] = dict(over=p.get("over", ["inputs"]), text=p["q"])
        d["why_tests_cant"] = p["why"]
        d["anchors"] = dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]])
        f.write(json.dumps(d) + "\n")
checks = []
for p in PROPS:
    if p["id"] not in have:
        print("no harness yet:", p["id"])
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']} --tier quick", thorough_cmd=f"./check {p['id']} --tier thorough",
                       technique="symbolic execution of the compiled code's LLVM IR, SMT (z3/cvc5) verdict over all inputs within bounds, counterexamples replayed natively",
                       level="model_checking",
                       level_note=p["note"]))
m = dict(version=1, setup_cmd="./check --setup", checks=checks,
         not_applicable=[dict(property=n["prop"]["id"], reason=n["reason"]) for n in NA] +
         [dict(property=p["id"], reason="no harness built yet") for p in PROPS if p["id"] not in have],
         notes="No hooks in /repo: harness crates under /verif/harness use the public interface. Engine: /verif/symex. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
