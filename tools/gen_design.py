"""Writes DESIGN.md from DESIGN.in.md, properties.jsonl and bin/config.py (the per-property section)."""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import config
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
man = json.load(open(os.path.join(V, "MANIFEST.json")))
na = {x["property"] if "property" in x else x.get("id"): x.get("reason", "") for x in man["not_applicable"]}
WHY = {
"C01": "the existing test asks from one thread; the collision needs a preemption between two particular instructions, or a fork between two requests",
"C02": "needs interleaved generators, reseeding in mid-life and changed environments; tests fix one seed on one generator",
"C03": "needs two creations within one clock tick, or in two processes; the wall clock of a test never stands still",
"C04": "needs a particular write or the close to fail, or the file to end at a particular byte; no test injects an I/O error",
"C05": "needs damaged files; tests load files they have just written",
"C06": "needs every class in every state of use, and archives that fail on the way; tests archive a few fresh objects",
"C07": "needs a save in the middle of a generation, a crash and a continuation compared with the uninterrupted one",
"C08": "needs failures of particular sampling steps in particular orders; tests have no failing distribution",
"C09": "needs draws at the ends of their range and energies at threshold; tests use typical ones",
"C10": "needs every configuration and streams driven to their ends; tests compare a few with generous tolerances",
"C11": "needs two tasks interleaved inside one call, or one after another in one process; hidden shared state shows no other way",
"C12": "needs a preemption inside the lazy index build; real threads hit it once in many million queries",
"C13": "needs a fault or kill at one particular system call; tests replace the network by a function that succeeds or fails as a whole",
"C14": "needs a sequence of failures and then success over state left behind on disk",
"C15": "needs two processes interleaved between two particular system calls",
"C16": "needs hostile names, links present on disk, and faults while they are handled",
"C17": "needs short, failing and cut-off reads; tests read complete local files",
"C18": "needs permuted, interleaved and reloaded weighting of the same events",
"C19": "needs empty and failed events mixed with ordinary ones and failing outputs",
"C20": "needs a load that fails half-way and a second attempt in the same interpreter",
"C23": "needs repeated or shared files among the sets, or a failing call followed by another with the same options",
"C24": "needs one resource to fail among several",
"C25": "needs changes after the first event, restored objects and failed calls followed by others; every path works alone on a fresh object",
"C26": "needs a failed attempt in one batch and another batch after it, or an empty event in an export",
"C21": "needs particular orders of giving and asking; tests set a fixed combination once",
"C22": "needs particular histories of changes, refusals and queries of one object",
}
out = []
for p in props:
    c = config.CHECKS.get(p["id"])
    if not c:
        continue
    parts = "; ".join("%s: %s" % (x["name"], ", ".join(s["name"] for s in x["scenarios"])) for x in c["parts"])
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("* Simulated: %s (scenarios %s)." % (c["what"], parts))
    out.append("* Specified, generated and compared: %s" % c["rule"])
    out.append("* Assumed: %s." % "; ".join(c["assumptions"]))
    out.append("* Cost: about %d s of search in the quick tier (8 workers) after the build, %d s in the thorough tier; no bound other than time and the sizes in the scenario." % (c["quick_s"], c["thorough_s"]))
    out.append("* Reaches what tests cannot: %s.\n" % WHY[p["id"]])
out.append("### Not decided by this technique\n")
for p in props:
    if p["id"] in na:
        out.append("* %s %s: %s" % (p["id"], p["title"], na[p["id"]]))
t = open(os.path.join(V, "DESIGN.in.md")).read().replace("PER-PROPERTY-SECTION", "\n".join(out))
fx = [l.strip()[7:] for l in open(os.path.join(V, "known_findings.txt")) if l.startswith("fixed:")]
t = t.replace("FIXED-LIST", "\n".join("* " + x.replace("property=", "") for x in fx))
rec = os.path.join(V, "tools", "seeded_record.txt")
t = t.replace("SEEDED-TABLE", open(rec).read() if os.path.exists(rec) else "")
open(os.path.join(V, "DESIGN.md"), "w").write(t)
