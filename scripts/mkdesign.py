"""Fills the list of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, E = "<!-- planted -->\n", "<!-- /planted -->\n"
rows = []
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("* `%s`: %s\n" % (d, m["what_it_breaks"].strip().replace("\n", " ")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = s.index(B) + len(B), s.index(E)
open(p, "w").write(s[:a] + "".join(rows) + s[b:])
print(len(rows), "bugs")
