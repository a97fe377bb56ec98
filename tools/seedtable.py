"""Rewrite the table of planted changes at the end of DESIGN.md from seeded/*/meta.json
(the caught column is maintained by hand in tools/caught.json; default: "<property> quick")."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
over = {}
p = os.path.join(here, "tools", "caught.json")
if os.path.exists(p):
    over = json.load(open(p))
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {over.get(d, m['property'] + ' quick')} |")
f = os.path.join(here, "DESIGN.md")
lines = open(f).read().split("\n")
i = lines.index("| change | property | needs | caught by |")
j = i
while j < len(lines) and lines[j].startswith("|"):
    j += 1
lines[i:j] = rows
open(f, "w").write("\n".join(lines))
