#!/usr/bin/env python3
"""Fills the generated part of DESIGN.md: per property the functions under contract, obligations and assumed contracts (from evidence/)."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
notes = json.load(open(os.path.join(HERE, "tools", "level_notes.json")))
for p in props:
    i = p["id"]
    f = os.path.join(HERE, "evidence", i + ".json")
    if i not in notes or not os.path.exists(f):
        continue
    c = json.load(open(f))["coverage"]
    out.append(f"### {i} {p['title']}\n")
    out.append(notes[i] + "\n")
    out.append(f"- contracts: {', '.join(x['contract'] for x in c['contracts'])}")
    out.append(f"- functions: {', '.join(sorted(t.split('.', 1)[1] if t.count('.') > 1 else t for t in c['functions_under_contract']))}")
    out.append(f"- about {c['obligations']} obligations; bounded only: {', '.join(c['functions_bounded_only']) or 'none'}")
    a = [t[len('assumed contract: '):] for t in c["trusted_base"] if t.startswith("assumed contract")]
    out.append(f"- assumed: {'; '.join(a) or 'nothing beyond the common base'}\n")
s = open(os.path.join(HERE, "DESIGN.md")).read()
a, b = "<!-- generated -->", "<!-- end generated -->"
s = s[:s.index(a) + len(a)] + "\n\n" + "\n".join(out) + "\n" + s[s.index(b):]
open(os.path.join(HERE, "DESIGN.md"), "w").write(s)
