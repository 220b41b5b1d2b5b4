#!/usr/bin/env python3
"""Rewrites the table of planted bugs in section 7 of DESIGN.md (documentation only)."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(root + "/seeded/*/meta.json"):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["needs"]))
out = ["| bug | caught by | needs |", "|---|---|---|"]
for prop, name, needs in sorted(rows):
    out.append("| %s | %s | %s |" % (name, prop, needs.replace("|", "\\|")))
p = root + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(## 7\. Planted bugs\n.*?\n\n)(@TABLE@|\| bug.*?)(\n\n|\n?$)", lambda m: m[1] + "\n".join(out) + "\n" + (m[3][1:] if len(m[3]) > 1 else ""), s, count=1, flags=re.S) \
    if "@TABLE@" not in s else s.replace("@TABLE@", "\n".join(out))
open(p, "w").write(s)
