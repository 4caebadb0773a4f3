"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + "/tools/caught.json"))
rows = ["| id | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); i = m.split("/")[-2]
    rows.append("| %s | %s | %s | %s | %s |" % (i, d["property"], d["needs"], d["what_it_breaks"], caught.get(i, "?")))
s = open(V + "/DESIGN.md").read()
a, b = s.index("<!-- seeded -->"), s.index("<!-- /seeded -->")
open(V + "/DESIGN.md", "w").write(s[:a] + "<!-- seeded -->\n" + "\n".join(rows) + "\n" + s[b:])
