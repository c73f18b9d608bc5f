"""Brings the tables of DESIGN.md in step with the registered checks and the planted bugs."""
import json
import os
import re

from opgv.checks import CHECKS

text = open("DESIGN.md").read()
for p, f in CHECKS.items():
    fs = f().families
    n = ["%d" % x.quick for x in fs], ["%d" % x.thorough for x in fs]
    cell = "+".join(n[0]) + " / " + "+".join(n[1])
    text = re.sub(r"(?m)^(\| %s \| .* \|) [^|]* \|$" % p, lambda m: m.group(1) + " " + cell + " |", text)
head, tail = text.split("| planted bug | needs | caught by |\n|---|---|---|\n")
rest = re.sub(r"(?m)^\| C\d\d-.*\n?", "", tail)
rows = ""
for b in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % b))
    rows += "| %s | %s | %s |\n" % (b, m["needs"], m["property"])
open("DESIGN.md", "w").write(head + "| planted bug | needs | caught by |\n|---|---|---|\n" + rows + rest)
