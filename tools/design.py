#!/usr/bin/env python3
"""Rewrites the per-property table of DESIGN.md (between the two markers) from obligations.txt and the last evidence."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
obl, cur = {}, None
for l in open(f"{V}/obligations.txt"):
    l = l.rstrip("\n")
    m = re.match(r"\[(\w+)\]", l)
    if m:
        cur = m.group(1); obl[cur] = []
    elif l and not l.startswith("#"):
        obl[cur].append(l)
def short(l):
    w = l.split()
    k, r = w[0], w[1:]
    if k == "fork":
        f = "every fork" if r[0] == "ALL" else r[0]
        return f"{f}: " + ", ".join(f"`{x}`" for x in r[1:])
    if k == "fn":
        return f"`{'::'.join(r[1:2])}` fns: " + ", ".join(f"`{x}`" for x in r[2:]) if len(r) > 2 else f"all fns of `{r[-1]}`"
    return f"{k}s: " + ", ".join(f"`{x}`" for x in r[1:] or r)
rows = ["| id | property | constructs judged (functions are judged with everything they call) |", "|---|---|---|"]
for l in open(f"{V}/properties.jsonl"):
    p = json.loads(l)
    if p["id"] not in obl: continue
    t = "; ".join(short(x) for x in obl[p["id"]])
    if len(t) > 420: t = t[:400].rsplit(",", 1)[0] + ", …"
    rows.append(f"| {p['id']} | {p['title']} | {t} |")
d = open(f"{V}/DESIGN.md").read()
a, b = "<!-- table -->", "<!-- /table -->"
i, j = d.index(a) + len(a), d.index(b)
open(f"{V}/DESIGN.md", "w").write(d[:i] + "\n" + "\n".join(rows) + "\n" + d[j:])
