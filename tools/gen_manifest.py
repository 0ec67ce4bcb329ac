#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JS = ("deterministic simulation with fault injection: seeded search over schedules, faults and crash points of the real JavaScript in one process",
      "Seeded random exploration, not enumeration. The real bin/ and lib/ code and its real dependencies run over a simulated disk, network, clock and child processes; one seed is one exact execution, violations are minimised and replayed. Trusts the simulator's models of those and the oracle.")
PY = ("deterministic simulation with fault injection: seeded search over schedules, faults and crash points of the real gyp",
      "Seeded random exploration, not enumeration. The real gyp code runs with its file, process, pool and hash-seed nondeterminism under a seeded simulator. Trusts the simulator's models and the oracle.")
BL = ("deterministic simulation with fault injection: seeded search over build schedules, edits, failures and kills of the generated builds",
      "Seeded random exploration, not enumeration. Real gyp, GNU make and ninja execute over a simulated toolchain whose order, failures and kills the seed decides. Trusts the stub toolchain and the oracle (clean serial build).")
claimed = json.load(open(os.path.join(HERE, "tools", "claimed.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
PURE = "a pure function of one input: no schedule, fault, clock, I/O history or crash point can change it, so there is nothing for a simulator to decide"
NA = {"C19": PURE, "C20": PURE, "C21": PURE, "C22": PURE}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        n = int(i[1:])
        if n <= 10:
            t, note = JS; cmd = f"node jssim/run.js --property {i}"
        elif n in (15, 16, 17):
            t, note = BL; cmd = f"python3 pysim/run.py --property {i}"
        else:
            t, note = PY; cmd = f"python3 pysim/run.py --property {i}"
        checks.append({"property": i, "quick_cmd": cmd + " --tier quick", "thorough_cmd": cmd + " --tier thorough", "technique": t, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
