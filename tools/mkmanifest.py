"""Writes MANIFEST.json from the checks that exist."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
    "C19": "A pure function of one file's text: no concurrency, time, I/O or second party for the property to "
           "depend on, so there is nothing for a simulator to schedule or fail; checking it would be input "
           "fuzzing, another family of technique.",
    "C20": "A pure arithmetic function of sizes and crop settings, without concurrency, time, I/O or second "
           "party; nothing for a simulator to schedule or fail. (C12 checks the crops of images that builds "
           "really export.)",
}
TECH = ("deterministic simulation with fault injection: the real program runs in one process under a simulated "
        "file system, process pool, clock, network and scheduler; seeded search over histories, schedules and "
        "faults; ")
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(line)["id"]
    try:
        c = importlib.import_module("sim.checks." + i.lower()).CHECK
    except ModuleNotFoundError:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
        continue
    checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": TECH + c.technique,
                   "level": c.level, "level_note": c.note})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is patched from outside at the level of Python's os, io, time, "
              "threading, concurrent.futures, asyncio, socket and http modules. Replay a violation with "
              "./check replay FILE."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
