#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the list of registered checks."""
import json, os, subprocess, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = subprocess.run(["bash", "check.sh", "--list"], cwd=here, capture_output=True, text=True, check=True).stdout
props = {}
for l in out.splitlines():
    f = l.split()
    if len(f) >= 2:
        props.setdefault(f[0], []).append(f[1])
NA = json.load(open(os.path.join(here, "tools", "not_applicable.json")))
notes = json.load(open(os.path.join(here, "tools", "level_notes.json")))
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in props:
        n = notes[i]
        checks.append({
            "property": i,
            "quick_cmd": f"bash check.sh {i} quick",
            "thorough_cmd": f"bash check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": n["technique"],
            "level": "exploration",
            "level_note": n["note"],
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": na,
    "hooks": {"guard": "go build tag verif", "enable": "go build -tags verif (check.sh)", "source_commits": ["4bb77b3"]},
    "notes": "Generated by tools/mkmanifest.py. "
             "Known and fixed defects are in known_findings.json; design and per-property oracles in DESIGN.md.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not claimed")
