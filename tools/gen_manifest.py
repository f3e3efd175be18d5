#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MACRO = ("The real macro library runs inside a simulated compiler that owns hash keys, threads, expansion history, diagnostics and clocks; "
         "seeded search over systems, orders and faults. Trusts the simulated proc_macro server, the reference interpreter and, for confirmation, rustc. "
         "Sampled, not exhaustive.")
T = "deterministic simulation with fault injection: "
CHECKS = {
 "C01": ("seeded compiler histories, hash keys, threads and compiler failures; expansions compared token by token", MACRO),
 "C02": ("seeded systems and statement orders in a simulated compiler against a reference interpreter", MACRO),
 "C03": ("seeded faulty statements injected into healthy systems in a simulated compiler; the rest compared with the healthy expansion", MACRO),
 "C04": ("seeded faulty statements injected into healthy systems in a simulated compiler; every fault must be reported", MACRO),
}
CHECKS.update(json.load(open(here + "/tools/manifest_rt.json")) if os.path.exists(here + "/tools/manifest_rt.json") else {})
NA = {
 "C12": "Accepting or rejecting a program is a pure function of its text computed by rustc's type checker: no schedule, time, I/O, randomness or second party for a simulator to control (the macro's own nondeterminism is C01-C04).",
 "C13": "A pure function of its arguments: no schedule, time, I/O, randomness or fault can change the result (that the unit magnitudes themselves are right and independent of order and hash seed is C02).",
 "C14": "A pure function of its arguments: no schedule, time, I/O, randomness or fault can change the result (interference between concurrent uses is C11).",
 "C15": "Constants in the source text: one fixed table to compare with another, nothing to simulate.",
 "C16": "A property of build configurations of pure functions: nothing to schedule and no fault to inject.",
}
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: every seam the simulators need exists already (the proc_macro bridge, io::Read/io::Write through serde_json and serde_yaml, fmt::Write, RngCore, MPI messages, libc)."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                            "evidence_file": f"evidence/{i}.json", "technique": T + CHECKS[i][0], "level": "exploration", "level_note": CHECKS[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "Planned; no check yet.")})
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
