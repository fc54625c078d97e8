"""Development helper: refresh the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

by = {}
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    by.setdefault(json.load(open(f))["property"], []).append(os.path.basename(os.path.dirname(f)))
rows = "".join(f"| {p} | " + "; ".join(f"`{b}`" for b in bs) + " |\n" for p, bs in sorted(by.items()))
s = open("/verif/DESIGN.md").read()
s = re.sub(r"(\| property = catching check \| planted bugs \|\n\|---\|---\|\n)(?:\|.*\n)+", lambda m: m[1] + rows, s)
s = re.sub(r"holds \d+ changes", f"holds {sum(map(len, by.values()))} changes", s)
open("/verif/DESIGN.md", "w").write(s)
