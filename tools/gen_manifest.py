#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the list of drivers that exist."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
src = open(f"{root}/harness/src/props/mod.rs").read()
have = [x.strip().upper() for x in re.search(r"props!\((?!\$)([^)]*)\);", src).group(1).split(",") if x.strip()]
TECH = {
 "default": "model checking: exhaustive stateless exploration of the real implementation (bounded choice tree), every execution compared with an independent oracle",
 "C01": "model checking: all operation sequences to a depth on the real implementation, conformance to a reference store after every operation",
 "C02": "model checking: all operation sequences to a depth on the real implementation, conformance to a reference link relation after every operation",
 "C16": "model checking: all bounded histories (deviation-bounded schedules of interventions) on the real implementation, invariant checked in every reached state",
 "C17": "model checking: all bounded histories on the real implementation, conformance to a sleep-timer automaton after every step",
 "C18": "model checking: all bounded histories of disturbances on the real implementation, conformance to a wake-propagation model",
 "C20": "model checking: all operation sequences to a depth on the real implementation, no panic / hang / non-finite state in any reached state",
 "C21": "model checking: all insertion orders and all hash iteration orders of each scene on the real implementation, pairwise equivalence",
 "C22": "model checking: all scene x transformation pairs in the bound on the real implementation, equivariance checked pairwise",
}
NOTE = "Exhaustive within the bounds stated in DESIGN.md and in the evidence rule; trusts the double-precision oracle in /verif/harness, the f32 tolerances stated there, and the Rust toolchain. Nothing is claimed outside the enumerated alphabet."
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick ./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, TECH["default"]), "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./check.sh build", "hooks": {"guard": "cfg(fluffy_quiet)", "enable": "harness/.cargo/config.toml passes --cfg fluffy_quiet to rustc", "source_commits": ["9742125"]}, "checks": checks, "not_applicable": na,
     "notes": "Everything is driven and observed through the crate's public API; the only hook leaves out the progress messages, which cost most of the time."}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not claimed")
