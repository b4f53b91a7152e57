#!/usr/bin/env python3
"""Development tool (no check uses it): apply a planted bug to /repo, build, run the stable tests, the demo and the checks; undo.
usage: seedtest.py [--fast] ID...   (--fast: no build/tests/demo, checks only)"""
import json, subprocess, sys, os, time
fast = "--fast" in sys.argv
nocheck = "--nocheck" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
man = {c["property_id"] if "property_id" in c else c.get("property"): c for c in json.load(open("/verif/MANIFEST.json"))["checks"]}
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
for i in ids:
    d = f"/verif/seeded/{i}"
    meta = json.load(open(d + "/meta.json")); res = [i, meta["property"]]
    if not fast:
        r = sh(f"cp -r {d} /tmp/demo_{i}; cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1; bash /tmp/demo_{i}/demo.sh"); res.append(f"demo-clean={r.returncode}")
        if r.returncode: print(r.stdout[-1500:], r.stderr[-1500:])
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode: print(i, "APPLY FAILED", r.stderr); continue
    try:
        if not fast:
            r = sh("bash /opt/vp/test.sh /tmp/seed_out.json"); o = json.load(open("/tmp/seed_out.json"))
            miss = base - set(o["passed"]); res.append(f"tests-lost={len(miss)} {sorted(miss)[:3]}")
            if not o["passed"]: print(r.stderr[-1500:])
            r = sh(f"cd /repo && timeout 300 bash /tmp/demo_{i}/demo.sh"); res.append(f"demo-bug={r.returncode}")
        if not nocheck and meta["property"] in man:
            t = time.time(); r = sh(man[meta["property"]]["quick"]["cmd"] if isinstance(man[meta["property"]].get("quick"), dict) else man[meta["property"]]["quick_cmd"], cwd="/verif", env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res.append(f"check rc={r.returncode} {v[:1]} {time.time()-t:.0f}s")
            if r.returncode not in (0, 1): print(r.stdout[-2000:], r.stderr[-2000:])
    finally:
        sh("git -C /repo checkout -- ."); sh(f"rm -rf /tmp/demo_{i}")
    print(*res, flush=True)
