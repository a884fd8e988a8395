"""Table of planted bugs for DESIGN.md (between the markers)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"]))
p = V + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- seeded -->\n", "<!-- /seeded -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "| planted bug | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n" + s[j:])
