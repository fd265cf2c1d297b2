"""Writes /verif/MANIFEST.json from properties.jsonl and props/*.py."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "N02": "Equality of rendered pixels depends on the rasterisers (Inkscape, cairo, pango), which are outside "
           "the repository and absent or external here; no contract on the repository's code expresses it. "
           "What the code sends to both back ends is decided by X03, K01, K02 and K03.",
}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    f = os.path.join(HERE, "props", p + ".py")
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
        continue
    if not os.path.exists(f):
        na.append({"property": p, "reason": "no check has been built yet"})
        continue
    src = open(f).read()
    units = len(re.findall(r"^@unit\(", src, re.M))
    bnd = re.findall(r'^@bounded\("([^"]+)"', src, re.M)
    if units:
        tech = "contract-based deductive verification of the real code (PyVC: verification conditions generated " \
               "from /repo's Python source on every run, discharged by z3/cvc5)"
        note = "%d proof unit(s) over the real functions%s" % (
            units, "; bounded stand-ins for the rest: " + ", ".join(bnd) if bnd else "")
    else:
        tech = "bounded run-time contract check of the real code (stand-in for functions outside the verifier's reach)"
        note = "no deductive unit: the functions this depends on are outside the reach of the generator; bounded " \
               "contract checks: " + ", ".join(bnd)
    checks.append({"property": p, "quick_cmd": "./check %s" % p, "thorough_cmd": "./check %s --thorough" % p,
                   "technique": tech, "level": "proof" if units else "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
