#!/usr/bin/env python3
"""Development tool: writes units/names.tsv, the names of parameters and local variables (and the kinds of the
loops) that the annotations of each unit speak of. Run it on the tree for which the annotations are written."""
import glob, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo = sys.argv[1] if len(sys.argv) > 1 else "/repo"
out = os.path.join(V, "units/names.tsv")
if os.path.exists(out):
    os.remove(out)
rows = []
for u in sorted(glob.glob(V + "/units/*.vu")):
    subprocess.run([V + "/.build/extract/debug/vextract", u, repo, "/tmp/names.rs", "/tmp/names.json"], check=True)
    for i in json.load(open("/tmp/names.json"))["items"]:
        if i["kind"] == "fn":
            rows.append("\t".join([os.path.basename(u)[:-3], i["name"], ",".join(i["params"]), ",".join(i["bindings"]), i["kinds"] or "0"]))
open(out, "w").write("\n".join(rows) + "\n")
