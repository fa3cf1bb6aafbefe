#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing the table)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/HyperHDG/"
P = []


def prop(pid, title, statement, qtext, why, files, mech, over=("inputs",), level="proof", note=""):
    assert len(title) <= 80, title
    P.append(dict(id=pid, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=[I + f if not f.startswith("/") else f[1:] for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech]),
                  _level=level, _note=note))


exec(open(os.path.join(ROOT, "tools", "table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
index_path = os.path.join(ROOT, "contracts", "index.json")
index = json.load(open(index_path))
idx = index["properties"]
for p in P:
    if p["id"] in idx:  # the limits of a check are part of its evidence
        idx[p["id"]]["bounds"] = [p["_note"]] if p["_note"] else []
json.dump(index, open(index_path, "w"), indent=1)
TECH = ("contract-based deductive verification: contracts over the real templates, LLVM IR compiled from "
        "/repo on every run, obligations discharged by ring normalisation, z3 and cvc5, "
        "counterexamples replayed on the compiled code")
checks, na = [], list(NOT_APPLICABLE)
for p in P:
    if p["id"] in idx:
        checks.append(dict(property=p["id"], quick_cmd="python3-vt engine/check.py %s --tier quick" % p["id"],
                           thorough_cmd="python3-vt engine/check.py %s --tier thorough" % p["id"],
                           technique=TECH, level=p["_level"], level_note=p["_note"]))
    elif p["id"] not in [n["property"] for n in na]:
        raise SystemExit("no check and no reason: " + p["id"])
json.dump(dict(version=1, setup_cmd="python3-vt engine/check.py --selftest", checks=checks,
               not_applicable=na), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
