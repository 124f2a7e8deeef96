#!/usr/bin/env python3
"""DESIGN.md from tools/design.in.md, known-findings.txt, seeded/ and tools/catches.json."""
import json, os, re
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
s = open(V + "/tools/design.in.md").read()
fixes = [m.groups() for m in re.finditer(r"(?m)^fixed: property=(\w+) (\w+) (.*)$", open(V + "/known-findings.txt").read())]
s = s.replace("@@FIXES@@", "\n".join(f"| {p} | {c} | {w} |" for p, c, w in sorted(fixes)))
caught = json.load(open(V + "/tools/catches.json")) if os.path.exists(V + "/tools/catches.json") else {}
rows, n, yes = [], 0, 0
for b in sorted(os.listdir(V + "/seeded"), key=lambda b: (json.load(open(f"{V}/seeded/{b}/meta.json"))["property"], b)):
    m = json.load(open(f"{V}/seeded/{b}/meta.json"))
    c = caught.get(b)
    n += 1
    yes += bool(c and c["caught"])
    one = lambda t: " ".join(t.replace("|", "/").split())
    rows.append(f"| {m['property']} | {b} | {one(m['needs'])} | {one(m['what_it_breaks'])} | {(c['by'] + ', ' + str(c['seconds']) + ' s' if c['caught'] else 'missed') if c else 'not run'} |")
s = s.replace("@@COUNTS@@", f"{n} changes are kept under `seeded/`; the quick check of the property each breaks catches {yes}.")
s = s.replace("@@CATCHES@@", "| property | change | needs | breaks | caught by |\n|----|----|----|----|----|\n" + "\n".join(rows))
open(V + "/DESIGN.md", "w").write(s)
