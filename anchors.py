#!/usr/bin/env python3
"""anchors.py EXTRACTOR DERIVE: records where the annotations of the units sit in the current tree (contracts/anchors.json)"""
import glob, json, os, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
res = {}
for u in sorted(glob.glob(os.path.join(here, "contracts", "*.unit"))):
    n = os.path.basename(u)[:-5]
    if n in ("std", "core", "text"):
        continue
    with tempfile.TemporaryDirectory() as d:
        subprocess.run([sys.argv[1], u, "/repo", d + "/o.rs", d + "/o.json", "--derive", sys.argv[2]], check=True)
        j = json.load(open(d + "/o.json"))
        res[n] = {f["path"]: f["anchors"] for f in j["functions"] if f["anchors"]}
json.dump(res, open(os.path.join(here, "contracts", "anchors.json"), "w"), indent=1, sort_keys=True)
