"""Regenerates the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"]))
t = open(V + "/DESIGN.md").read()
t = re.sub(r"(\| bug \| check \| needs \|\n\|---\|---\|---\|\n)(\|.*\n)*", lambda m: m.group(1) + "\n".join(rows) + "\n", t)
open(V + "/DESIGN.md", "w").write(t)
