"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and a log of tools/runseeds.py."""
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
how = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\w+) (C\d+): exit (\d) \d+ s (input|no input|MISSED) \|? ?(.*)", l)
        if m:
            how[m.group(1)] = (m.group(4), m.group(5))
rows = ["| bug | property | what it breaks (needs) | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    i = d.split("/")[-2]
    m = json.load(open(d))
    k, o = how.get(i, ("?", ""))
    by = {"input": "failing input", "no input": "failed obligation, no input", "MISSED": "missed"}.get(k, "?")
    ob = re.match(r"failed obligation (\[.*?\] [^:]*):", o)
    if ob and k == "input":
        by = "failed obligation `%s`, replayed" % ob.group(1)
    elif o.startswith("not decided"):
        by += " (search; proof not decided or stopped)"
    rows.append("| %s | %s | %s (%s) | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], by))
p = HERE + "/DESIGN.md"
s = open(p).read()
head = "## 3. Planted bugs"
new = head + "\n\nEach is in `seeded/`; `tools/runseeds.py` runs the property's quick check against it.\n\n" + "\n".join(rows) + "\n"
s = s.split(head)[0].rstrip() + "\n\n" + new
open(p, "w").write(s)
