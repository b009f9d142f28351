"""Writes the table of planted bugs at the end of DESIGN.md."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(p))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(p)), m["property"], m["what_it_breaks"], m["needs"]))
d = open(root + "/DESIGN.md").read()
i = d.index("| bug | check |")
j = re.search(r"\n\n", d[i:] + "\n\n").start() + i
d = d[:i] + "| bug | check | what it breaks | what it needs |\n|---|---|---|---|\n" + "\n".join(rows) + d[j:].rstrip("\n") + "\n"
open(root + "/DESIGN.md", "w").write(d)
