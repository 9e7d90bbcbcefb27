"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json and the lines `id checks` of tools/caught.txt."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = dict(l.strip().split(" ", 1) for l in open(ROOT + "/tools/caught.txt") if " " in l)
rows = ["| change | breaks | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(f))
    i = f.split("/")[-2]
    rows.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {caught.get(i, 'not run')} |".replace("\n", " "))
s = open(ROOT + "/DESIGN.md").read()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
s = s[:s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
open(ROOT + "/DESIGN.md", "w").write(s)
