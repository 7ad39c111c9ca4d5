"""Writes DESIGN.md from the property modules (specification table) and the prose below; run with /opt/veriftools/pyvenv/bin/python."""
import importlib
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

HOW = json.load(open(os.path.join(ROOT, "tools", "design_text.json")))
out = [open(os.path.join(ROOT, "tools", "design_head.md")).read().rstrip(), "", "## Per property", ""]
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
seeded = {}
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))) if os.path.isdir(os.path.join(ROOT, "seeded")) else []:
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    seeded.setdefault(m["property"], []).append((d, m))
for p in props:
    t = HOW[p["id"]]
    m = importlib.import_module("props." + p["id"].lower())
    out += ["### %s %s" % (p["id"], p["title"]), ""]
    out += ["*Specified.* " + p["statement"], ""]
    out += ["*Oracle.* " + t["oracle"], ""]
    out += ["*Generated.* " + m.RULE[0].upper() + m.RULE[1:] + ".", ""]
    subs = ", ".join("%s (%s)" % (s.name, "enumerated" if s.strategy is None else "%d / %d" % (s.quick, s.thorough)) for s in m.SUBCHECKS)
    out += ["*Cases (quick / thorough).* " + subs + ". Cost of the quick tier: about %s s on 8 cores." % t["cost"], ""]
    out += ["*Bounds and assumptions.* " + "; ".join(m.ASSUMPTIONS) + ".", ""]
    out += ["*Why the tests cannot settle it.* " + t["why"], ""]
    if t.get("notes"):
        out += ["*Notes.* " + t["notes"], ""]
out += [open(os.path.join(ROOT, "tools", "design_tail.md")).read().rstrip(), "", "## Planted bugs (seeded/)", "",
        "Every planted bug was written from the property's text and the code, confirmed to build, to pass the ten stable tests and to fail its demonstration, and run "
        "against the quick check of its property. All of the ones kept are caught by the check named; those that were missed when first run are listed under "
        "\"What planting changed\" above.", "", "| bug | caught by | needs | breaks |", "|---|---|---|---|"]
for p in sorted(seeded):
    for d, m in seeded[p]:
        out.append("| %s | %s | %s | %s |" % (d, p, m["needs"], m["what_it_breaks"]))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
