"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/missed.txt."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = dict(l.rstrip("\n").split(": ", 1) for l in open(f"{V}/tools/missed.txt"))
rows = []
for i in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    rows.append((m["property"], i, m["needs"], missed.get(i, "as it was")))
t = "| Property | Bug | Needs | Caught by the check |\n|---|---|---|---|\n"
t += "".join("| %s | %s | %s | %s |\n" % tuple(str(x).replace("|", "\\|").replace("\n", " ") for x in r) for r in sorted(rows))
s = open(f"{V}/DESIGN.md").read()
a, b = "<!-- bugs -->\n", "<!-- /bugs -->\n"
s = s[: s.index(a) + len(a)] + t + s[s.index(b) :]
open(f"{V}/DESIGN.md", "w").write(s)
