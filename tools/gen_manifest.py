#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from config import CHECKS
NA = {
 "N01": "A geometric query is a pure function of its arguments: no schedule, clock, I/O or other party exists for a simulator to control. (Only the concurrent and archived use of shapes is simulated, under C06 and C12.)",
 "N02": "Density integrals are pure numeric functions of their arguments; nothing for a simulator to schedule or to fail.",
 "N03": "Algebraic identities of pure functions; nothing for a simulator to schedule or to fail.",
 "N04": "The HepMC3 library is not installed, so the writer and reader cannot be compiled here and no real code could run in the simulation.",
 "N05": "photospline, cfitsio and DarkNews are not installed, so these models cannot be compiled or imported here.",
 "N06": "Parsing is a pure function of the text; delivery faults of the text are simulated under C17, the grammar itself has no nondeterminism to control.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ids = [p["id"] for p in props]
checks = []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 bin/check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 bin/check.py {i}", evidence_file=f"evidence/{i}.json",
            technique=c.get("technique", "deterministic simulation with fault injection: " + c["what"]), level="exploration",
            level_note=c["note"] + " Assumes: " + "; ".join(c["assumptions"]) + "."))
na = [dict(property=i, reason=NA.get(i, "No simulation for it has been built.")) for i in ids if i not in CHECKS]
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na,
         notes="No hooks were added to /repo: all seams are reached from outside (instrumented compilation, symbol interposition, linker wrapping and Python-level module seams). /repo carries only fix: commits, listed in known_findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
