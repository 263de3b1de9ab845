"""Refreshes the table of planted bugs in DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISS = json.load(open(os.path.join(V, "tools", "missed.json")))
rows = ["| bug | property | what it breaks | result |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/").replace("\n", " "), MISS.get(d, "caught")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
i = s.index("be shown by its demo.")
i = s.index("\n\n", i) + 2
open(p, "w").write(s[:i] + "\n".join(rows) + "\n")
