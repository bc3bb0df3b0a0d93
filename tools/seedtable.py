#!/usr/bin/env python3
"""tools/seedtable.py: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seeds/notes.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(V + "/tools/seeds/notes.json"))
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = d.split("/")[-2]
    m = json.load(open(d))
    rows.append((m["property"], i, m["needs"], m["what_it_breaks"], notes.get(i, "caught")))
rows.sort()
t = "| property | id | needs | breaks | check |\n|---|---|---|---|---|\n" + "".join("| %s | %s | %s | %s | %s |\n" % r for r in rows)
s = open(V + "/DESIGN.md").read()
b, e = "<!-- seeds -->\n", "<!-- /seeds -->"
s = s[:s.index(b) + len(b)] + t + s[s.index(e):]
open(V + "/DESIGN.md", "w").write(s)
print(len(rows), "planted bugs")
