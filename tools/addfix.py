#!/usr/bin/env python3
"""addfix.py PROP COMMIT CONTRACT-RE LABEL-RE TEXT: record a repaired defect in known_findings.json and DESIGN.md."""
import json, sys, re
prop, commit, con, lab, text = sys.argv[1:]
k = json.load(open('known_findings.json'))
lst = k[[x for x in k if isinstance(k[x], list)][0]]
lst.append({"property": prop, "status": "fixed", "commit": commit, "contract": con, "label": lab,
            "what": f"fixed: property={prop} {commit} {text}"})
json.dump(k, open('known_findings.json', 'w'), indent=1)
s = open('DESIGN.md').read()
m = "\nAll are listed in `known_findings.json` with status *fixed*"
i = s.index(m)
s = s[:i] + f"* {prop} `{commit}` {text}\n" + s[i:]
open('DESIGN.md', 'w').write(s)
