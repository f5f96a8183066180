"""Regenerates /verif/DESIGN.md: design_head.md plus the table of planted bugs (seeded/*/meta.json), plus design_tail.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(os.path.join(V, "tools", "design_head.md")).read()
out += "## 7. Planted bugs\n\nEach was confirmed to build, to pass the stable tests, and to fail its demonstration only with the patch; the check named\nafter the arrow reports it on the quick tier, seed 1.\n\n| bug | needs | breaks | caught by |\n|---|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    out += "| %s | %s | %s | %s |\n" % (os.path.basename(d), m["needs"], m["what_it_breaks"], m.get("caught_by", m["property"]))
out += "\n" + open(os.path.join(V, "tools", "design_tail.md")).read()
open(os.path.join(V, "DESIGN.md"), "w").write(out)
