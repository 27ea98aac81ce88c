#!/usr/bin/env python3
"""Writes MANIFEST.json from propinfo.py and the list below."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from propinfo import INFO
props = {}
for l in open(H + "/properties.jsonl"):
    d = json.loads(l); props[d["id"]] = d
done = sys.argv[1].split(",") if len(sys.argv) > 1 else list(INFO)
NA = {
    "N01": "A pure function of four settings read once at start-up: there is no schedule, time, I/O or multi-party behaviour for it to depend on, so simulation adds nothing to a unit test.",
    "N02": "The scripts are offline, single-threaded text converters; they need pandas and other Python packages that are not installed here, and nothing in them depends on a schedule or fault.",
    "N03": "src/Region.cpp does not compile with ENABLE_OPENCV at this commit (it uses members that no longer exist), so no execution of that configuration can be simulated.",
    "N04": "The id is a pure function of the call stack at one call; nothing nondeterministic that a simulator could vary enters it.",
}
for p in INFO:
    if p not in done:
        NA[p] = "Its check is not finished yet."
checks = []
for p in done:
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s --tier quick" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "technique": "deterministic simulation with fault injection (seeded search over schedules and faults; " + INFO[p].get("oracle", "history checks against a reference model") + ")",
        "level": INFO[p]["level"],
        "level_note": INFO[p].get("note", "Randomised search over simulated runs of the real library code: a violation found is real and replays exactly; none found means none in the runs counted in the evidence. Trusts the simulated clocks, files, devices and MPI and the oracle in sim/props_*.cpp."),
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "No hooks in /repo: every seam is reached through the dynamic linker and through stub headers for CUDA, HIP and MPI. Fixed defects are listed in KNOWN_FINDINGS.md."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
