#!/usr/bin/env python3
"""Writes the table of the planted changes into DESIGN.md, after the heading '## Planted changes'."""
import json, os, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(f"{VERIF}/seeded")):
    m = json.load(open(f"{VERIF}/seeded/{i}/meta.json"))
    rows.append((m["property"], i, m["what_it_breaks"].rstrip("."), m["needs"].rstrip(".")))
rows.sort()
text = "## Planted changes\n\nEach one is in `seeded/<id>/`; the check of its property catches it at the quick tier.\n\n| caught by | id | what it breaks | needs |\n| --- | --- | --- | --- |\n"
text += "".join("| " + " | ".join(x.replace("|", "/") for x in r) + " |\n" for r in rows)
p = f"{VERIF}/DESIGN.md"
s = open(p).read()
if "## Planted changes\n" in s:
    s = re.sub(r"## Planted changes\n.*?(?=\n## |\Z)", lambda _: text, s, flags=re.S)
else:
    s = s.replace("## Findings\n", text + "\n## Findings\n", 1)
open(p, "w").write(s)
