#!/usr/bin/env python3
"""Writes DESIGN.md from design.md, props.py, the entries' annotations, the evidence of the last run and seeded/."""
import json, os, sys, glob, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, "tools")
sys.path.insert(0, T)
sys.dont_write_bytecode = True
from props import PROPS, NA
ents = {}
for f in sorted(glob.glob(os.path.join(V, "harness/h-*/src/**/*.rs"), recursive=True)):
    ann = None
    for l in open(f):
        m = re.match(r"^\s*//@\s*(.*)$", l)
        if m:
            t = m.group(1).strip()
            ann = ann or dict(props=[], bound=[], assume=[], thorough=False, file=os.path.relpath(f, os.path.join(V, "harness")))
            if t.startswith("bound:"):
                ann["bound"].append(t[6:].strip())
            elif t.startswith("assume:"):
                ann["assume"].append(t[7:].strip())
            else:
                ann["props"] += [w for w in t.split() if re.match(r"^[A-Z]\d\d$", w)]
                ann["thorough"] |= "tier=thorough" in t
            continue
        m = re.search(r'extern\s+"C"\s+fn\s+(\w+)', l) or re.match(r"^\s*entry!\s*\(\s*(\w+)", l)
        if m and ann:
            for p in ann["props"]:
                ents.setdefault(p, []).append((m.group(1), ann))
            ann = None
out = [open(os.path.join(T, "design.md")).read()]
out.append("## Properties\n")
cost = os.path.join(T, "cost.json")
c = json.load(open(cost)) if os.path.exists(cost) else {}
for p in PROPS:
    ev = os.path.join(V, "evidence", p["id"] + ".json")
    if os.path.exists(ev):
        e = json.load(open(ev))
        if e.get("tier") == "quick":
            g = e["coverage"]
            c[p["id"]] = [g["symbolic_paths"], g["queries"], round(g["solver_s"], 1)]
json.dump(c, open(cost, "w"), indent=0)
def grp(a):
    return "; ".join(a)
for p in PROPS:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    out.append(p["statement"] + f" *Quantified over:* {p['q']}.\n")
    out.append(f"*Beyond tests:* {p['why']} *Limits:* {p['note']}" + (f" *Cost (quick):* {c[i][0]} paths, {c[i][1]} queries, {c[i][2]} s of solver time." if i in c else "") + "\n")
    for n, a in ents.get(i, []):
        out.append(f"- `{n}`{' (thorough only)' if a['thorough'] else ''}: " + (grp(a["bound"]) or "as above, the other operations") + (". Assumes: " + grp(a["assume"]) if a["assume"] else ""))
    out.append("")
out.append("## Not applicable\n")
for n in NA:
    out.append(f"- **{n['prop']['id']} {n['prop']['title']}**: {n['reason']}")
out.append("")
fixed = [l.strip() for l in open(os.path.join(V, "known_findings.jsonl")) if l.startswith("fixed:")]
fx = "\n".join("- " + re.sub(r"^fixed: property=(\S+) (\S+) ", r"\1 `\2`: ", l) for l in fixed)
pl = ["| change | property | needs | caught by |", "|---|---|---|---|"]
res = os.path.join(T, "planted.json")
r = json.load(open(res)) if os.path.exists(res) else {}
for d in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(d))
    b = os.path.basename(os.path.dirname(d))
    pl.append(f"| {b}: {m['what_it_breaks']} | {m['property']} | {m['needs']} | {r.get(b, '?')} |")
t = open(os.path.join(T, "design2.md")).read().replace("@FIXED@", fx).replace("@PLANTED@", "\n".join(pl))
out.append(t)
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
