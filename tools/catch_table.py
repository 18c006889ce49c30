"""Write the table of planted bugs in DESIGN.md from seeded/*/meta.json: python3 tools/catch_table.py OWN.log

OWN.log is the output of `python3 tools/matrix.py own`.
"""
import collections
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = set(open(os.path.join(ROOT, "tools", "first_missed.txt")).read().split())
caught = {l.split()[0]: " CAUGHT " in l for l in open(sys.argv[1])}
by = collections.defaultdict(list)
for bid in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    prop = json.load(open(os.path.join(ROOT, "seeded", bid, "meta.json")))["property"]
    name = bid.split("-", 1)[1] if bid.lower().startswith(prop.lower()) else bid
    by[prop].append(name + ("\\*" if bid in FIRST_MISSED else "") + ("" if caught.get(bid) else " (**missed**)"))
table = "| check | planted bugs (`seeded/<check>-<name>`) it reports |\n|---|---|\n" + "".join("| %s | %s |\n" % (p, ", ".join(by[p])) for p in sorted(by))
path = os.path.join(ROOT, "DESIGN.md")
text = open(path).read()
a, rest = text.split("<!-- catch table -->\n")[0::2] if text.count("<!-- catch table -->\n") == 2 else text.split("<!-- catch table -->\n")
open(path, "w").write(a + "<!-- catch table -->\n" + table + "<!-- catch table -->\n" + rest)
