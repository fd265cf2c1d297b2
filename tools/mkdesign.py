"""Writes /verif/DESIGN.md from tools/design.txt, the units, the seeds, known_findings.txt and MANIFEST.json."""
import json
import os
import re
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(HERE + "/tools/design.txt").read()
props = {json.loads(l)["id"]: json.loads(l) for l in open(HERE + "/properties.jsonl")}
out = []
for l in subprocess.run([sys.executable, "-B", HERE + "/tools/listunits.py"], capture_output=True, text=True).stdout.split("\n"):
    if l.startswith("## "):
        out += ["", "### %s %s" % (l[3:], props[l[3:]]["title"]), ""]
    elif l[:2] in ("P ", "B "):
        name, _, rest = l[2:].partition(" | ")
        if l[0] == "P":
            out.append("- P: %s%s" % (name, " (`%s`)" % rest.replace(", ", "`, `") if rest.strip() else ""))
        else:
            out.append("- B %s: %s" % (name, rest))
t = t.replace("{{UNITS}}", "\n".join(out).strip())
seeds = ["| change | check that catches it | what it breaks |", "|---|---|---|"]
for d in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open(HERE + "/seeded/%s/meta.json" % d))
    seeds.append("| %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/")))
t = t.replace("{{SEEDS}}", "\n".join(seeds))
known = open(HERE + "/known_findings.txt").read().split("\n")
t = t.replace("{{FIXED}}", str(sum(l.startswith("fixed:") for l in known)))
t = t.replace("{{KNOWN}}", "\n".join("- " + re.sub(r"KNOWN-FINDING: property=(\S+) key=\S+", r"\1:", l) for l in known if l.startswith("KNOWN")))
mut = HERE + "/tools/mutations.txt"
t = t.replace("{{MUT}}", open(mut).read().strip() if os.path.exists(mut) else "")
na = json.load(open(HERE + "/MANIFEST.json"))["not_applicable"]
t = t.replace("{{NA}}", "\n".join("- %s: %s" % (x["property"], x["reason"]) for x in na))
open(HERE + "/DESIGN.md", "w").write(t)
