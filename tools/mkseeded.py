"""Writes the table of seeded bugs in DESIGN.md from seeded/*/meta.json.  Which check caught which bug was seen by running them;
bugs that no check catches are listed in MISSED."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}
rows = ["| seeded bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m, i = json.load(open(f)), os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), MISSED.get(i, m["property"])))
d = open(V + "/DESIGN.md").read()
a = d.index("| seeded bug |")
b = re.search(r"\n\n|\Z", d[a:]).start() + a
open(V + "/DESIGN.md", "w").write(d[:a] + "\n".join(rows) + d[b:])
