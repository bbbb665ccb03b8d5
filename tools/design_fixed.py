#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md (repaired defects, planted bugs) from known_findings.json and seeded/."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
d = open(os.path.join(V, "DESIGN.md")).read()
head = d.split("<!-- generated -->")[0]
o = ["<!-- generated -->", "", "## Known findings (recorded, not repaired)", ""]
for k in K:
    if k["status"] == "known":
        o.append("- **%s** `%s`: %s" % (k["property"], k["key"], k["what"]))
o += ["", "## Repaired defects (`fix:` commits in /repo)", "",
      "Each was first reported by the check of the property named, on the tree before the commit.", ""]
for p in sorted({k["property"] for k in K if k["status"] != "known"}):
    o.append("**%s**: " % p + "; ".join(re.sub(r"^fixed: property=\w+ ", "", k["what"]).rstrip(".") for k in K if k["property"] == p and k["status"] != "known") + ".\n")
o += ["## Planted bugs", "", "| bug | property | needs | breaks |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    j = json.load(open(m))
    o.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), j["property"], j["needs"].replace("|", "/"), j["what_it_breaks"].replace("|", "/")))
open(os.path.join(V, "DESIGN.md"), "w").write(head + "\n".join(o) + "\n")
