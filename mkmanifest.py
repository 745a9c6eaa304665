#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
import subprocess
import props
props_list = [json.loads(l) for l in open("properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {
        "guard": "cfg rudis_verif",
        "enable": 'RUSTFLAGS="--cfg rudis_verif" cargo build (done by check.py for its own target directory)',
        "source_commits": ["895767dcd"],
    },
    "checks": [],
    "not_applicable": [{"property": p, "reason": r} for p, r in props.NOT_APPLICABLE.items()],
    "notes": "Every check runs the extraction, the verifier and the replay from /repo's working tree; see DESIGN.md.",
}
m["hooks"]["source_commits"] = [
    subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verification hook"], capture_output=True, text=True).stdout.split()
][0]
for p in props_list:
    i = p["id"]
    if i in props.NOT_APPLICABLE:
        continue
    d = props.CHECKS[i]
    c = {
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "technique": d["technique"],
        "level": d["level"],
        "level_note": d["note"],
    }
    if d.get("theorems"):
        c["theorems"] = d["theorems"]
    m["checks"].append(c)
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
