#!/usr/bin/env python3
"""Generates properties.jsonl, obligations.txt and MANIFEST.json from the property tables."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props1 import P
import props2, props3
try:
    from na import NA, TECH
except ImportError:
    NA, TECH = [], {}
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def row(d):
    return {"id": d["id"], "title": d["title"], "statement": d["st"],
            "quantifier": {"over": d["over"], "text": d["q"][0].upper() + d["q"][1:]},
            "why_tests_cant": d.get("why") or f"It quantifies over {d['q']}; the repository's tests that build offline reach a handful of clock, hex-formatting and fork-order samples and none of this.",
            "anchors": {"files": d["files"], "mechanism": [{"name": n, "where": w} for n, w in d["mech"]]}}
with open(f"{V}/properties.jsonl", "w") as f:
    for d in P + NA:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps(row(d)) + "\n")
with open(f"{V}/obligations.txt", "w") as f:
    f.write("# generated by tools/gen.py; one obligation pattern per line\n")
    for d in P:
        f.write(f"[{d['id']}] {d['title']}\n" + "\n".join(d["obl"]) + "\n\n")
TECHNIQUE = "static value-graph equivalence: gated-SSA lowering and global value numbering against a specification"
NOTE = "Every listed construct of the current tree is lowered to a normalised value graph (all callees inlined, loops as folds) and must equal the audited specification's; trusts the specification in reference/, the lowering rules, no integer overflow, and external crates."
m = {"version": 1, "setup_cmd": "cargo build --release --offline --quiet --manifest-path analyzer/Cargo.toml",
     "checks": [{"property": d["id"], "quick_cmd": f"./check.sh {d['id']} quick", "thorough_cmd": f"./check.sh {d['id']} thorough",
                 "technique": TECH.get(d["id"], TECHNIQUE), "level": "other", "level_note": NOTE} for d in P],
     "not_applicable": [{"property": d["id"], "reason": d["reason"]} for d in NA],
     "notes": "Static analysis only; see DESIGN.md."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(P), "claimed", len(NA), "not applicable")
