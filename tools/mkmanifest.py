#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property the simulator has an oracle for."""
import json, re, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = set()
for f in glob.glob(V + "/sim/harness/*.go"):
    have |= set(re.findall(r'oracles\["(\w+)"\] = ', open(f).read()))
NOTE = "Exploration: seeded search over schedules and fault sequences of the whole program on generated scenarios; no violation means none in the sampled runs. Trusts the simulated MySQL server/driver, HTTP and file system, and the source rewriting that puts them under the simulator."
checks, na = [], []
for p in props:
    if p["id"] in have:
        checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
                       "technique": "deterministic simulation with fault injection (seeded schedule and fault search, reference-model oracle over the recorded history)",
                       "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks rewrite a copy of the working tree so that goroutines, channels, locks, clocks, randomness, files, sockets and SQL go through the simulator (sim/rewrite, sim/simrt). Genuine defects: known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
