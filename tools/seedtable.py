"""Rewrite the table of planted bugs in DESIGN.md; tools/caught.json holds what the checks said."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
out = ["| planted bug | needs | breaks | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    out.append("| %s | %s | %s | %s |" % (d, m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|"), c.get(d, "?")))
s = open(V + "/DESIGN.md").read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
s = s[:s.index(a) + len(a)] + "\n".join(out) + "\n" + s[s.index(b):]
open(V + "/DESIGN.md", "w").write(s)
