"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(H + "/tools/caught.json")) if os.path.exists(H + "/tools/caught.json") else {}
rows = ["| change | property | breaks | needs | quick check of that property |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    c = lambda x: str(x).replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], c(m["what_it_breaks"]), c(m["needs"]), caught.get(i, "caught")))
s = open(H + "/DESIGN.md").read()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
if "@@SEEDTAB@@" in s:
    s = s.replace("@@SEEDTAB@@", a + b)
i, j = s.index(a) + len(a), s.index(b)
open(H + "/DESIGN.md", "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
