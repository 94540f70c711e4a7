"""Writes the table of seeded bugs into DESIGN.md (between its markers)."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(p))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(p)), m["what_it_breaks"],
                                      m["needs"]))
d = os.path.join(HERE, "DESIGN.md")
s = open(d).read()
head, tail = s.split("<!-- table -->")[0], s.split("<!-- end of table -->")[-1]
if "<!-- end of table -->" not in s:
    tail = "\n"
with open(d, "w") as f:
    f.write(head + "<!-- table -->\n| seeded bug (property first) | what it breaks | needs |\n"
            "|---|---|---|\n" + "\n".join(rows) + "\n<!-- end of table -->" + tail)
