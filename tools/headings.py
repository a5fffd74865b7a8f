#!/usr/bin/env python3
"""Development tool: the counts (functions / obligations) in DESIGN.md's headings, from evidence/*.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/DESIGN.md").read()
def sub(m):
    p = V + "/evidence/%s.json" % m.group(1)
    if not os.path.exists(p):
        return m.group(0)
    c = json.load(open(p))["coverage"]
    return "### %s %s(%d / %d)" % (m.group(1), m.group(2), len(c["functions_under_contract"]), c["obligations"])
t = re.sub(r"^### (C\d\d) (.*?)\(\d+ / \d+\)", sub, t, flags=re.M)
open(V + "/DESIGN.md", "w").write(t)
