#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of properties the simulator implements."""
import json, subprocess, os
os.chdir(os.path.join(os.path.dirname(__file__), ".."))
props = [json.loads(l) for l in open("properties.jsonl")]
have = {l.split()[0] for l in subprocess.run(["sim/target/release/sim", "list"], capture_output=True, text=True, check=True).stdout.splitlines()}
NOTES = json.load(open("tools/level_notes.json"))
NA = json.load(open("tools/not_applicable.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection",
            "level": "exploration",
            "level_note": NOTES.get(i, NOTES["*"]),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "The check for this property is still being built.")})
m = {
    "version": 1,
    "setup_cmd": "./check.sh --build",
    "checks": checks,
    "not_applicable": na,
    "notes": "One simulator (sim/) decides every claimed property; seeds come from VERIF_SEED. No hooks were added to /repo: every seam it needs (blocks in, blocks out, caches, reader fragments, hash keys via getrandom, the allocator) is reachable from outside.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
