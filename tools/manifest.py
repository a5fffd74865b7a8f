#!/usr/bin/env python3
"""Rewrites MANIFEST.json from tools/props.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = json.load(open(V + "/tools/props.json"))
na = json.load(open(V + "/tools/not_applicable.json"))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, nas = [], []
for i in ids:
    if i in props:
        p = props[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": "contract-based deductive verification with Verus of functions extracted from /repo",
            "level": "proof",
            "level_note": p.get("note") or ("Every obligation of the extracted functions is discharged by Verus for all inputs; assumed: " + "; ".join(p["trusted"] + p["assumptions"]) + ". Bounded part (harness): " + p["bound"] + "."),
        })
    else:
        nas.append({"property": i, "reason": na.get(i, "no check has been built for it yet")})
m = {
    "version": 1,
    "setup_cmd": "true",
    "hooks": {"guard": "cfg(verif)", "enable": "RUSTFLAGS=\"--cfg verif\" when check.py builds the harness; the verified text is extracted with the guard off", "source_commits": ["4971842"]},
    "checks": checks,
    "not_applicable": nas,
    "notes": "Each check rebuilds the extractor and its harness binary under /verif/.build (ignored by git).",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
