#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed checks are the properties the simulator knows."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
src = open(f"{here}/sim/src/props/mod.rs").read()
have = set(re.findall(r'id: "(C\d+)"', src))
NA = {
    "N01": "The arithmetic of tree shapes is a pure sequential function of its arguments: there is no schedule, clock, I/O, crash or second party for a simulator to control. (The shapes the other properties build are still compared with the reference model.)",
    "N02": "The hashing adaptors are pure sequential functions of the value hashed; nothing in them depends on scheduling, time or I/O.",
    "N03": "Proof validation of adversarial objects is a pure function of its input and rests on collision resistance, not on schedules or faults. (Tampering with proofs obtained from a running tree is part of C11.)",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and crash points of the real code against a reference model",
            "level": "exploration",
            "level_note": "Seeded sampling, not exhaustive: every run executes the real crate, rayon and std under a simulator that owns scheduling, file-system results, durability, clock and randomness; each failure is minimised and replays exactly.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", len(na), "not applicable")
