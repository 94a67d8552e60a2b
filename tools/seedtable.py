#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md. Arguments: the bugs the last catch.py run missed."""
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for k in ("seeded", "seeded-extra"):
    for i in sorted(os.listdir(V + "/" + k)):
        m = json.load(open("%s/%s/%s/meta.json" % (V, k, i)))
        rows.append("| %s%s | %s | %s |" % (i, "" if k == "seeded" else " (extra)", "-" if i in sys.argv else m["property"],
                                           m["needs"].replace("|", "\\|")))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(?s)<!--seeds-->.*?<!--/seeds-->",
           lambda _: "<!--seeds-->\n| bug | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n<!--/seeds-->", s)
open(p, "w").write(s)
