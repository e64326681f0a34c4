"""Rewrites the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | what it needs | what it breaks | caught by |", "|---|---|---|---|"]
notes = json.load(open(os.path.join(root, "tools", "caught.json")))
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m, i = json.load(open(f)), f.split("/")[-2]
    rows.append("| %s | %s | %s | %s |" % (i, m["needs"], m["what_it_breaks"], notes.get(i, m["property"])))
p = os.path.join(root, "DESIGN.md")
t = open(p).read()
t = t[:t.index("<!--BUGS-->")] + "<!--BUGS-->\n" + "\n".join(rows) + "\n"
open(p, "w").write(t)
