#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, checks/meta.py, properties.jsonl,
known_findings.txt, tools/why.json and tools/design_tail.md."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
from meta import META
rd = lambda p: open(os.path.join(V, p)).read()
props = [json.loads(l) for l in rd("properties.jsonl").splitlines() if l.strip()]
why = json.loads(rd("tools/why.json"))
fixed = {}
for l in rd("known_findings.txt").splitlines():
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fixed.setdefault(m[1], []).append((m[2], m[3]))
out = [rd("tools/design_head.md")]
for p in props:
    i = p["id"]; m = META[i]; w = why[i]
    out.append(f"### {i} — {p['title']}\n")
    out.append(f"*Generated and compared.* {m['rule']}\n")
    out.append(f"*Oracle.* {m['note']}\n")
    if m["assumptions"]: out.append("*Bounds / assumptions.* " + "; ".join(m["assumptions"]) + ".\n")
    out.append(f"*Why this reaches what the tests cannot.* {w}\n")
    if i in fixed: out.append("*Defects found and repaired.* " + "; ".join(f"`{c}` {t}" for c, t in fixed[i]) + ".\n")
    s = [d for d in sorted(os.listdir(os.path.join(V, "seeded"))) if os.path.exists(os.path.join(V, "seeded", d, "meta.json")) and json.loads(rd(f"seeded/{d}/meta.json"))["property"] == i] if os.path.isdir(os.path.join(V, "seeded")) else []
    if s: out.append("*Planted changes.* " + ", ".join(f"`{d}`" for d in s) + ".\n")
out.append(rd("tools/design_tail.md"))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
