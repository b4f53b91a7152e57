#!/usr/bin/env python3
"""check.py <PROPERTY> [--replay FILE] [--time S] [--workers N]

Builds what the property's scenarios need from /repo's working tree, runs the
seeded search and decides.  Exit 0: held on everything explored.  Exit 1 and a
VIOLATION line: broken, replay file written.  Anything else: error of the check.
"""
import glob, json, os, shutil, struct, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import simbuild
from config import CHECKS, REAL, STUB
VERIF = simbuild.VERIF

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=Cxx class=<cls> match=<text without ';'> :: description
                head, _, desc = line[len("finding:"):].partition("::")
                kv = {}
                for part in head.strip().split(";"):
                    k, _, v = part.strip().partition("=")
                    kv[k] = v
                if kv.get("property") == prop:
                    out.append((kv.get("class", ""), kv.get("match", ""), desc.strip()))
    return out

def scratch_base():
    for d in ("/dev/shm", os.environ.get("TMPDIR", "/tmp"), "/tmp", VERIF):
        try:
            return tempfile.mkdtemp(prefix="sirensim.", dir=d)
        except OSError:
            continue
    raise SystemExit(2)

def command(part, prop):
    if part.get("kind", "cpp") == "cpp":
        t = time.time()
        b = simbuild.build(part["name"], **part["build"])
        print(f"[{prop}] built {part['name']} in {time.time()-t:.1f} s", flush=True)
        return [b]
    if part.get("numpy"):
        for exe in ("/opt/vp/venv/bin/python", "/opt/veriftools/pyvenv/bin/python", sys.executable):
            if os.path.exists(exe) and subprocess.run([exe, "-I", "-c", "import numpy"], capture_output=True).returncode == 0:
                return [exe, "-I", "-X", "utf8", os.path.join(VERIF, "pysim", part["main"])]
        raise SystemExit("no interpreter with numpy")
    return [sys.executable, "-I", "-S", "-X", "utf8", os.path.join(VERIF, "pysim", part["main"])]

def main():
    args = sys.argv[1:]
    prop = args[0]
    opt = dict(a[2:].split("=", 1) if "=" in a else (a[2:], "1") for a in args[1:] if a.startswith("--"))
    cfg = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    env = dict(os.environ, LC_ALL="C", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    env.pop("SIM_NOASLR", None)
    env["SIREN_REPO"] = simbuild.REPO
    cmds = {p["name"]: command(p, prop) for p in cfg["parts"]}
    base = scratch_base()
    try:
        return explore(prop, cfg, tier, seed, opt, cmds, base, env, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)

def replay(cmd, scenario, path, base, env, extra=()):
    os.makedirs(base, exist_ok=True)
    r = subprocess.run(cmd + [f"--scenario={scenario}", f"--replay={path}", f"--scratch={base}", *extra], capture_output=True, text=True, env=env)
    try:
        return json.loads(r.stdout.strip().splitlines()[-1]), r
    except Exception:
        return {"status": 9, "class": "", "message": (r.stdout + r.stderr)[-2000:], "hash": ""}, r

def explore(prop, cfg, tier, seed, opt, cmds, base, env, t0):
    scen = [(p, s) for p in cfg["parts"] for s in p["scenarios"]]
    if "replay" in opt:
        d = json.load(open(opt["replay"]))
        part = next(p for p, s in scen if s["name"] == d["scenario"])
        r, _ = replay(cmds[part["name"]], d["scenario"], os.path.abspath(opt["replay"]), base, env)
        print(json.dumps(r, indent=1))
        same = r["class"] == d["class"] and r["hash"] == d["hash"]
        if r["status"] == 2:
            print(f"VIOLATION property={prop} replay={opt['replay']}" + ("" if same else "  (different history)"))
            return 1
        return 0 if r["status"] == 1 else 2
    if "scenario" in opt:
        scen = [(p, s) for p, s in scen if s["name"] in opt["scenario"].split(",")]
    total = float(opt.get("time", cfg.get(tier + "_s", 20 if tier == "quick" else 600)))
    W = int(opt.get("workers", os.cpu_count() or 4))
    known = known_findings(prop)
    kfile = os.path.join(base, "known.json")
    json.dump([[a, b] for a, b, _ in known], open(kfile, "w"))
    with open(kfile + ".tsv", "w") as f:
        for a, b, _ in known: f.write(a + "\t" + b + "\n")
    # allot workers: every scenario gets time share by weight, all workers in turn
    wsum = sum(s.get("weight", 1) for _, s in scen)
    agg = dict(runs=0, nontrivial=0, steps=0, switches=0, preemptions=0, forks=0, events=0, audits=0, faults={}, probes={}, samples=[], per_scenario={}, simtime=0.0, known={})
    distinct = 0
    violation = None
    error = None
    # run scenarios in waves: assign each worker a queue
    for p, s in scen:
        T = total * s.get("weight", 1) / wsum
        maxruns = s.get("max_runs_" + tier, s.get("max_runs", 10**9))
        procs = []
        for w in range(W):
            wd = os.path.join(base, f"{s['name']}.{w}")
            os.makedirs(wd, exist_ok=True)
            c = cmds[p["name"]] + [f"--scenario={s['name']}", f"--seed={seed}", f"--first={w}", f"--step={W}", f"--time={T}", f"--runs={max(1, -(-maxruns // W))}", f"--out={wd}/o", f"--scratch={wd}", f"--known={kfile}", f"--audit={s.get('audit', 64)}", f"--cpu={s.get('cpu', 60)}", f"--tier={tier}"]
            procs.append((w, wd, subprocess.Popen(c, stdout=subprocess.DEVNULL, stderr=open(wd + "/err", "w"), env=env)))
        pend = list(procs)
        hit = []
        while pend:
            time.sleep(0.02)
            for x in list(pend):
                rc = x[2].poll()
                if rc is None:
                    continue
                pend.remove(x)
                if rc == 1:
                    hit.append(x)
                elif rc != 0:
                    error = f"scenario {s['name']} worker {x[0]} exit {rc}: " + open(x[1] + "/err").read()[-1500:]
            if hit:
                # give the others a moment, then stop them
                end = time.time() + 1
                while pend and time.time() < end:
                    time.sleep(0.05); pend = [x for x in pend if x[2].poll() is None]
                for x in pend:
                    x[2].terminate()
                for x in pend:
                    try: x[2].wait(5)
                    except subprocess.TimeoutExpired: x[2].kill(); x[2].wait()
                pend = []
        hs = set()
        for w, wd, pr in procs:
            f = wd + "/o.stats.json"
            if os.path.exists(f):
                try: st = json.load(open(f))
                except ValueError: continue
                for k in ("runs", "nontrivial", "steps", "switches", "preemptions", "forks", "events", "audits"):
                    agg[k] += st.get(k, 0)
                agg["simtime"] += st.get("simtime", 0.0)
                for k in ("faults", "probes", "known"):
                    for n, v in st.get(k, {}).items():
                        agg[k][n] = agg[k].get(n, 0) + v
                ps = agg["per_scenario"].setdefault(s["name"], 0); agg["per_scenario"][s["name"]] = ps + st["runs"]
                if w < 2: agg["samples"] += [f"{s['name']} " + x for x in st.get("samples", [])][:2]
            h = wd + "/o.hashes"
            if os.path.exists(h):
                d = open(h, "rb").read(); hs.update(struct.unpack(f"<{len(d)//8}Q", d[:len(d)//8*8]))
        distinct += len(hs)
        if hit:
            cands = []
            for x in hit:
                vf = x[1] + "/o.violation.json"
                if os.path.exists(vf):
                    v = json.load(open(vf)); cands.append((len(v["choices"]), v["run"], vf, v))
            cands.sort(key=lambda c: c[:2])
            for _, _, vf, v in cands:
                # gate: two fresh processes must reproduce the same history
                a, _ = replay(cmds[p["name"]], s["name"], vf, os.path.join(base, "r1"), env)
                b, rb = replay(cmds[p["name"]], s["name"], vf, os.path.join(base, "r2"), env)
                if a["status"] == 2 and b["status"] == 2 and a["class"] == b["class"] == v["class"] and a["hash"] == b["hash"] == v["hash"]:
                    violation = v; violation["file"] = vf; break
                error = f"violation of scenario {s['name']} did not reproduce: {v['class']}/{v['hash']} vs {a} vs {b}"
        for w, wd, pr in procs:
            if not violation: shutil.rmtree(wd, ignore_errors=True)
        if violation or error:
            break
    wall = time.time() - t0
    search = max(1e-6, wall)
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg.get("level", "exploration"), wall_s=round(wall, 2), violations=1 if violation else 0,
              assumptions=cfg.get("assumptions", []),
              coverage=dict(evaluations=agg["runs"], distinct_nontrivial=distinct, rule=cfg["rule"], samples=agg["samples"][:6] or ["(no run)"],
                            nontrivial_runs=agg["nontrivial"], runs_per_scenario=agg["per_scenario"], runs_per_hour_one_seed_each=int(agg["runs"] / search * 3600),
                            simulated_steps=agg["steps"], simulated_seconds=round(agg["simtime"], 1), thread_switches=agg["switches"], preemptions=agg["preemptions"], simulated_processes=agg["forks"], history_events=agg["events"],
                            faults_injected=agg["faults"], probes=agg["probes"], determinism_audits=agg["audits"], known_findings_hit=agg["known"],
                            real_components=cfg.get("real", REAL), stub_components=cfg.get("stub", STUB)))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print(f"[{prop}] {agg['runs']} runs, {distinct} distinct, {agg['switches']} switches, faults {agg['faults']}, {wall:.1f} s")
    for a, b, desc in known:
        print(f"KNOWN-FINDING: property={prop} {desc}")
    if violation:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        dst = os.path.join(VERIF, "replays", f"{prop}-{violation['scenario']}-{violation['hash']}.json")
        fn = violation.pop("file"); violation["property"] = prop
        json.dump(violation, open(dst, "w"), indent=1)
        print(f"violation class: {violation['class']}\n  {violation['message']}\n  seed {violation['seed']} run {violation['run']}, {len(violation['choices'])} choices after minimisation\n  replay with: bin/check.py {prop} --replay={dst}")
        print(f"VIOLATION property={prop} replay={dst}")
        return 1
    if error:
        print("ERROR: " + error); return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
