"""rewrites the table of planted bugs in DESIGN.md"""
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| bug | needs | caught by |", "|-----|-------|-----------|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append("| %s: %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["what_it_breaks"], d["needs"], d.get("caught_by", d["property"])))
p = V + "/DESIGN.md"
s = open(p).read()
i = s.index("## 6. Planted bugs")
open(p, "w").write(s[:i] + "## 6. Planted bugs and what catches them\n\nEach is caught by the quick check of its own property (exit 1, its VIOLATION line), with a failing input unless noted.\n\n" + "\n".join(rows) + "\n")
