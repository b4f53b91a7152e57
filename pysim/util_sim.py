"""Simulations of python/_util.py: C19 (exported tables), C20 (resource scripts), C23 (pooled sets), C24 (prefetch)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simpy
from simpy import REAL, R_OPEN, Killed
import copy, types, importlib, importlib.util, importlib.machinery, logging, math, pathlib, functools, uuid, pydoc, pickle, time
import importlib.resources
import numpy as np
REPO = os.environ.get("SIREN_REPO", "/repo")
SRC = os.path.join(REPO, "python", "_util.py")
CODE = None
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)
OUT = None          # what the stubs received in this run

# ---------------------------------------------------------------- stubs for compiled and missing packages
class AkArray:
    def __init__(self, d): self.d = copy.deepcopy(d)
class Vector3D:
    def __init__(self, *a): self.v = [float(x) for x in (a[0] if len(a) == 1 else a)]
    def normalize(self):
        n = math.sqrt(sum(x * x for x in self.v))
        if n: self.v = [x / n for x in self.v]
class Group(dict):
    def __init__(self): self.attrs = {}
class H5:
    def __init__(self, path, mode="r"): OUT.io("hdf5-open"); self.path, self.g, self.open = path, {}, True
    def create_group(self, n): g = Group(); self.g[n] = g; return g
    def close(self):
        if self.open: self.open = False; OUT.io("hdf5-close"); OUT.hdf5.append((self.path, self.g["Events"]))
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
class Form:
    def to_json(self): return "{}"
def to_buffers(arr, container=None, **k): OUT.io("hdf5-write"); container["array"] = arr; return Form(), 1, container
def to_parquet(arr, path, *a, **k): OUT.io("parquet-write"); OUT.parquet.append((path, arr))
def save_trees(trees, fn, *a): OUT.io("events-write"); OUT.native.append((fn, list(trees), [list(t.header.weights) for t in trees]))
class HOpts:
    def __init__(self): self.weights_state, self.attempted_events, self.accepted_events, self.events_to_inject, self.gzip = "unweighted", -1, -1, -1, False
def save_hepmc3(trees, out, opts, *a): OUT.io("hepmc3-write"); OUT.hep.append((out, list(trees), [list(t.header.weights) for t in trees], dict(vars(opts))))
def stubs():
    def mod(n, **k):
        m = types.ModuleType(n); m.__dict__.update(k); sys.modules[n] = m; return m
    s = mod("siren"); s.__path__ = []
    s.dataclasses = mod("siren.dataclasses", SaveInteractionTrees=save_trees, LoadInteractionTrees=lambda *a: OUT.load(*a))
    s.math = mod("siren.math", Vector3D=Vector3D)
    s.interactions = mod("siren.interactions", DarkNewsCrossSection=object, DarkNewsDecay=object)
    s.hepmc3 = mod("siren.hepmc3", HepMC3WriterOptions=HOpts, SaveInteractionTreesAsHepMC3=save_hepmc3)
    s.injection = mod("siren.injection", _Weighter=lambda *a: OUT.weighter(*a))
    mod("awkward", Array=AkArray, from_iter=AkArray, to_packed=lambda a, **k: a, to_buffers=to_buffers, to_parquet=to_parquet)
    mod("h5py", File=H5)
def load():
    global CODE
    if CODE is None:
        stubs()
        with R_OPEN(SRC) as f: CODE = compile(f.read(), SRC, "exec")
    m = types.ModuleType("siren._util"); m.__file__ = SRC; m.__package__ = "siren"
    exec(CODE, m.__dict__)
    return m

class Recorder:
    def __init__(self, w, p): self.w, self.p, self.hdf5, self.parquet, self.native, self.hep = w, p, [], [], [], []
    def io(self, what):
        self.w.step(what)
        if self.p[0].fault("output-error") is not None: raise OSError(28, "No space left on device")

# ---------------------------------------------------------------- C19
class NS(types.SimpleNamespace): pass
def make_event(w, s):
    """s: a PRNG for bulk numbers; the shape comes from recorded choices."""
    n = w.choose(5); tree = []
    for i in range(n):
        k = w.choose(4); par = -1 if i == 0 or w.choose(6) == 1 else w.choose(i)
        d = NS(parent_index=par if par >= 0 else 2**64 - 1, _root=par < 0)
        d.is_root = lambda d=d: d._root
        d.record = NS(interaction_vertex=[s.uniform(-10, 10) for _ in range(3)], primary_momentum=[s.uniform(1, 9) for _ in range(4)], secondary_momenta=[[s.uniform(-5, 5) for _ in range(4)] for _ in range(k)],
                      signature=NS(primary_type=s.choice([12, 14, -14, 5914]), target_type=s.choice([1000080160, 2212]), secondary_types=[s.choice([11, 13, 22, 2112, -2000001006]) for _ in range(k)]))
        tree.append(d)
    nw = w.choose(3); prov = {} if w.choose(3) else {"siren.weights_state": w.pick(["unweighted", "header", "computed", "Unweighted"])}
    return NS(tree=tree, header=NS(weights=[s.uniform(0.1, 2) for _ in range(nw)], provenance=prov))
def sc_export(w):
    global OUT
    import random
    s = random.Random(w.choose(1 << 30)); n = w.choose(7); holder = [None]; OUT = Recorder(w, holder)
    shapes = [make_event(w, s) for _ in range(n)]
    # failed generations give empty events
    for e in shapes:
        if w.choose(4) == 1: e.tree = []; w.count_fault("generation-failed")
    w.log("events " + "/".join(",".join(f"{d.parent_index if not d._root else -1}:{len(d.record.secondary_momenta)}" for d in e.tree) + f"+{len(e.header.weights)}" for e in shapes))
    durations = [w.pick([0.5, 0.0, 3.0, -2.0]) for _ in range(n)]
    res = {}
    class Inj:
        number_of_events = n; injected_events = 0; at = 0
        injection_attempts = property(lambda self: self.at)
        def generate_event(self):
            w.step("generate"); i = self.at
            w.now += durations[i]; self.at += 1
            if shapes[i].tree or not w_counts: self.injected_events += 1
            return shapes[i]
        def InjectionAttempts(self): return self.at
        def InjectedEvents(self): return self.injected_events
        def EventsToInject(self): return self.number_of_events
    w_counts = w.choose(2)           # failed attempts may or may not count
    if any(d < 0 for d in durations): w.count_fault("clock-back")
    pol = w.weighted([4, 1, 1, 1, 1]); wk = w.choose(3); direct = w.choose(2); raise_at = w.choose(n + 1) if w.choose(6) == 1 else -1
    calls = []
    def weight(e):
        w.step("weight"); i = next((k for k, x in enumerate(shapes) if x is e), None)
        calls.append(i)
        if len(calls) - 1 == raise_at: w.count_fault("weighting-failed"); raise ValueError("cannot weight this event")
        return 100.0 + i
    class Wt:
        def EventWeight(self, e): return weight(e)
    weighter = [None, weight, Wt()][wk]
    seq = [7.0 + i for i in range(n)]
    hw = ["auto", "none", "header", seq, Wt() if direct else weight][pol]
    native, hep, h5, pq = w.choose(2) == 0, w.choose(3) == 1, w.choose(2) == 0, w.choose(2) == 0
    fid = w.choose(2); times = w.choose(3)
    class Fid:
        def IsInside(self, pos, d): return pos.v[0] > 0
    old = [list(e.header.weights) for e in shapes]
    def job():
        m = load()
        if w.choose(2) == 0:
            ev, gt = m.GenerateEvents(Inj())
            res["gen"] = (ev, gt)
        else: ev, gt = list(shapes), [0.25 * i for i in range(n)]
        res["ev"], res["gt"] = ev, gt
        kw = {} if times == 2 else {"gen_times": gt}
        m.SaveEvents(ev, weighter=weighter, save_hdf5=h5, save_parquet=pq, save_siren_events=native, save_hepmc3=hep, hepmc3_weights=hw if len(ev) == n or pol != 3 else "auto", fid_vol=Fid() if fid else None, injector=Inj() if hep and w.choose(2) else None, output_filename="out", **kw)
    p = w.spawn("export", job); holder[0] = p
    if w.choose(5) == 1: p.add_fault("output-error", w.choose(5))
    w.run([p])
    if "gen" in res:
        ev, gt = res["gen"]
        w.check(all(a is b for a, b in zip(ev, shapes)) and len(ev) == len(gt), "generation-list", f"{len(ev)} events with {len(gt)} times came out of the generation loop")
        for i, t in enumerate(gt): w.check(abs(t - durations[i]) < 1e-3, "generation-time", f"event {i} took {durations[i]} s, {t} s were recorded")
        if len(ev) < n: w.check(sum(1 for e in ev if e.tree or not w_counts) >= n, "generation-list", "generation stopped early")
    w.trivial = n == 0
    if p.exc is not None:
        w.check(p.hard or raise_at >= 0, "spurious-failure", f"exporting {n} events ({sum(1 for e in shapes if not e.tree)} empty) raised {type(p.exc).__name__}: {p.exc}")
        if p.hard or "weighting-failed" in w.faults: w.probe("raised")
        return
    w.check("output-error" not in p.fired, "failure-hidden", "an output could not be written, yet the export returned normally")
    w.check("weighting-failed" not in w.faults, "failure-hidden", "an event could not be weighted, yet the export returned normally")
    ev = res["ev"]; N = len(ev); idx = {id(e): i for i, e in enumerate(shapes)}
    w.check(len(OUT.native) == int(native) and len(OUT.hep) == int(hep) and len(OUT.hdf5) == int(h5) and len(OUT.parquet) == int(pq), "output-missing", f"outputs written: {len(OUT.native)} native, {len(OUT.hep)} hepmc3, {len(OUT.hdf5)} hdf5, {len(OUT.parquet)} parquet")
    # expected weights
    trusted = any(o and str(e.header.provenance.get("siren.weights_state", "")).lower() != "unweighted" for e, o in zip(ev, [old[idx[id(e)]] for e in ev]))
    p_eff = pol if len(ev) == n or pol != 3 else 0
    comp = None
    if native or hep:
        if p_eff == 3: comp = seq
        elif p_eff == 4: comp = [100.0 + idx[id(e)] for e in ev]
        elif p_eff == 2: comp = [old[idx[id(e)]][0] if old[idx[id(e)]] else 1.0 for e in ev]
        elif p_eff == 0:
            if weighter is not None: comp = [100.0 + idx[id(e)] for e in ev]
            elif trusted: comp = [old[idx[id(e)]][0] if old[idx[id(e)]] else 1.0 for e in ev]
    exp = comp if comp is not None else [0 if weighter is None else 100.0 + idx[id(e)] for e in ev]
    written = (native or hep) and (p_eff in (3, 4) or (p_eff == 0 and weighter is not None))
    for i, e in enumerate(ev):
        o = old[idx[id(e)]]; want = ([exp[i]] + o[1:]) if written else o
        w.check(list(e.header.weights) == want, "header-weight", f"header weights of event {i} are {e.header.weights}, expected {want}")
    for fn, trees, hws in OUT.native: w.check(fn == "out" and all(a is b for a, b in zip(trees, ev)) and len(trees) == N and hws == [list(e.header.weights) for e in ev], "native-file", "the native event file did not receive the weighted events in order")
    for fn, trees, hws, opts in OUT.hep: w.check(fn == "out.hepmc3" and all(a is b for a, b in zip(trees, ev)) and len(trees) == N and hws == [list(e.header.weights) for e in ev], "hepmc3-file", "the HepMC3 file did not receive the weighted events in order")
    tabs = [("hdf5", fn, g.get("array")) for fn, g in OUT.hdf5] + [("parquet", fn, a) for fn, a in OUT.parquet]
    for kind, fn, a in tabs:
        w.check(fn == "out." + kind and a is not None, "output-missing", f"{kind} table written to {fn}")
        d = a.d
        for k in ("event_weight", "event_gen_time", "event_weight_time", "num_interactions", "vertex", "in_fiducial", "primary_type", "target_type", "num_secondaries", "secondary_types", "primary_momentum", "secondary_momenta", "parent_idx"):
            w.check(k in d and len(d[k]) == N, "row-count", f"column {k} has {len(d.get(k, []))} entries for {N} events")
        L = lambda x: [list(map(float, v)) for v in x]
        for i, e in enumerate(ev):
            T = e.tree
            def eq(k, got, want): w.check(got == want, "row-mismatch", f"{kind} column {k} of event {i} ({len(T)} interactions) is {got}, expected {want}")
            eq("event_weight", d["event_weight"][i], exp[i])
            eq("event_gen_time", d["event_gen_time"][i], 0.0 if times == 2 else res["gt"][i])
            eq("num_interactions", d["num_interactions"][i], len(T))
            eq("vertex", L(d["vertex"][i]), L(x.record.interaction_vertex for x in T))
            eq("in_fiducial", [bool(x) for x in d["in_fiducial"][i]], [bool(fid and x.record.interaction_vertex[0] > 0) for x in T])
            eq("primary_type", list(d["primary_type"][i]), [x.record.signature.primary_type for x in T])
            eq("target_type", list(d["target_type"][i]), [x.record.signature.target_type for x in T])
            eq("num_secondaries", list(d["num_secondaries"][i]), [len(x.record.secondary_momenta) for x in T])
            eq("secondary_types", [list(x) for x in d["secondary_types"][i]], [x.record.signature.secondary_types for x in T])
            eq("primary_momentum", L(d["primary_momentum"][i]), L(x.record.primary_momentum for x in T))
            eq("secondary_momenta", [L(x) for x in d["secondary_momenta"][i]], [L(x.record.secondary_momenta) for x in T])
            eq("parent_idx", list(d["parent_idx"][i]), [-1 if x._root else x.parent_index for x in T])
    w.probe("exported")

# ---------------------------------------------------------------- C20
class Odd(BaseException): pass
KINDS = [ValueError, KeyboardInterrupt, SystemExit, MemoryError, OSError, Odd, GeneratorExit, ImportError, AttributeError]
def sc_script(w):
    d = os.path.join(w.root, "pkg"); res = os.path.join(d, "resources"); os.makedirs(res)
    how = w.choose(3)          # 0 load_module, 1 import_resource, 2 get_resource_loader / load_resource
    rtype, folder = w.pick([("detector", "detectors"), ("flux", "fluxes"), ("processes", "processes")])
    sub = os.path.join(res, folder, "X", "X-v1"); os.makedirs(sub); path = os.path.join(sub, rtype + ".py")
    nested = w.choose(3) == 1; selfdel = w.choose(8) == 1; selfrep = w.choose(8) == 1
    helper = os.path.join(sub, "helper.py")
    with R_OPEN(helper, "w") as f: f.write("hook(10)\nVALUE = 7\nhook(11)\n")
    name = "sim-script" if how == 0 else f"siren-{rtype}-X"
    src = "import sys\nRUN = tick()\nhook(0)\nPART = 1\nhook(1)\n"
    if nested: src += "HELP = LM('sim-helper', HELPER, persist=%s)\nhook(2)\n" % (w.choose(2) == 1)
    src += f"def load_{rtype}(*a):\n    return ('made', RUN, a)\nhook(3)\n"
    if selfdel: src += "sys.modules.pop(__name__, None)\nhook(4)\n"
    src += "DONE = True\nhook(5)\n"
    with R_OPEN(path, "w") as f: f.write(src)
    good = src
    names = (name, "sim-helper", "siren")
    for n in names[:2]: sys.modules.pop(n, None)
    state = types.SimpleNamespace(n=0, plan=None, runs=0)
    def hook(k):
        w.step(f"script {k}")
        if state.plan and state.plan[0] == k: state.raised = state.plan[1]("injected"); w.count_fault("script-" + state.plan[1].__name__); raise state.raised
    def tick(): state.runs += 1; return state.runs
    import builtins
    builtins.hook, builtins.tick, builtins.HELPER = hook, tick, helper
    present = False            # does the script's module stay registered from an earlier success?
    first_mod = None
    try:
        attempts = 1 + w.choose(4)
        for k in range(attempts + 1):
            last = k == attempts; persist = how == 0 and w.choose(2) == 1; state.plan = None; state.raised = None; broken = False
            if not last:
                m = w.weighted([1, 4, 2, 1])
                if m == 1: state.plan = (w.pick([0, 1, 3, 5] + ([2, 10, 11] if nested else []) + ([4] if selfdel else [])), w.pick(KINDS))
                if m == 3: broken = True
            with R_OPEN(path, "w") as f: f.write(good if not broken else good + "\nthis is not python(\n")
            out = {}
            def job():
                m = load(); builtins.LM = m.load_module; m.resource_package_dir = lambda: res
                if how == 0: return m.load_module(name, path, persist=persist)
                if how == 1: return m.import_resource(rtype, "X")
                if w.choose(2) == 0: return m.get_resource_loader(rtype, "X")
                return {"detector": m.load_detector, "flux": m.load_flux, "processes": m.load_processes}[rtype]("X", 5)
            before = {n: sys.modules.get(n) for n in list(sys.modules)}
            r0 = state.runs
            p = w.spawn(f"L{k}", job)
            if not last and m == 2: p.add_fault(w.pick(["read-error", "open-error", "short-read"]), w.choose(3), errno="EIO", frac=0.5)
            w.run([p])
            now = sys.modules.get(name)
            gone = [n for n in before if n not in sys.modules and n not in names]
            w.check(not gone, "modules-lost", f"modules disappeared: {gone}")
            if present:
                w.check(p.exc is None and p.ret is first_mod and state.runs == r0, "registered-ignored", "a module that is already registered was not returned"); continue
            bad = state.raised is not None or broken or p.hard
            if p.exc is not None:
                w.probe("raised")
                w.check(bad, "spurious-failure", f"loading a working script raised {type(p.exc).__name__}: {p.exc} (attempt {k})")
                if state.raised is not None: w.check(p.exc is state.raised or type(p.exc) is type(state.raised), "wrong-error", f"the script raised {type(state.raised).__name__} but the caller saw {type(p.exc).__name__}: {p.exc}")
                w.check(now is None, "half-module", f"loading failed with {type(p.exc).__name__} but a {'half-initialised ' if not hasattr(now, 'DONE') else ''}module stays registered under {name!r}")
                h = sys.modules.get("sim-helper")
                w.check(h is None or hasattr(h, "VALUE"), "half-module", "a half-initialised helper module stays registered")
            else:
                w.check(state.raised is None and not broken, "failure-hidden", "the script failed but loading returned normally")
                w.probe("loaded")
                r = p.ret
                if how == 2 and isinstance(r, tuple): w.check(r[0] == "made" and r[2] == (5,), "incomplete", f"the loader returned {r}")
                else: w.check(getattr(r, "DONE", False) is True and (not nested or getattr(r.HELP, "VALUE", None) == 7), "incomplete", f"loading returned a module without its last definitions ({r!r})")
                w.check(state.runs == r0 + 1, "not-run", f"the script ran {state.runs - r0} times in one load")
                if how == 0 and persist and not selfdel: w.check(now is r, "not-registered", "the module was to stay registered but is not"); present = True; first_mod = r
                elif not persist: w.check(now is None, "stays-registered", "the module was not to stay registered but is")
            if sys.modules.get("sim-helper") is not None and not hasattr(sys.modules["sim-helper"], "VALUE"): w.fail("half-module", "helper")
    finally:
        for n in names[:2]: sys.modules.pop(n, None)
    w.trivial = False

# ---------------------------------------------------------------- C23
class Inj2:
    def __init__(self, k, n): self.k, self.n = k, n
    def GetPrimaryProcess(self): raise RuntimeError("not readable")
class Sig:
    def __init__(self, p, t, s): self.primary_type, self.target_type, self.secondary_types = p, t, s
class Coll:
    def __init__(self, p, sigs): self.p, self.sigs = p, sigs
    def GetPrimaryType(self): return self.p
    def _list(self, dec): return [NS(GetPossibleSignatures=lambda g=g: [Sig(*x) for x in g]) for d, g in self.sigs if d == dec]
    def GetCrossSections(self): return self._list(False)
    def GetDecays(self): return self._list(True)
BASE_PHYS = (14, ((False, ((14, 2212, (13, -2000001006)), (14, 2112, (13, -2000001006)))), (False, ((14, 1000080160, (14, 22)),))))
PHYS = [[BASE_PHYS], [(12, BASE_PHYS[1])], [(14, BASE_PHYS[1][:1])], [(14, ((False, ((14, 2212, (13, -2000001006)), (14, 1000080160, (13, -2000001006)))), BASE_PHYS[1][1]))], [(14, ((False, ((14, 2212, (13, 22)), (14, 2112, (13, -2000001006)))), BASE_PHYS[1][1]))], [BASE_PHYS, (5914, ((True, ((5914, 0, (22, 14)),)),))], [BASE_PHYS, (5914, ((True, ((5914, 0, (12, 14)),)),))]]
def sc_combine(w):
    global OUT
    import random
    s = random.Random(w.choose(1 << 30)); holder = [None]; OUT = Recorder(w, holder); root = os.path.join(w.root, "sets"); os.makedirs(os.path.join(root, "sub"))
    ninj = [0]; same = w.choose(3) != 1
    wf, ef = {}, {}
    for j in range(1 + w.choose(3)):
        b = os.path.join(root, w.pick(["run", "sub/run"]) + str(j)); k = 1 + w.choose(3)
        injs = [Inj2(ninj[0] + i, 1 + w.choose(50)) for i in range(k)]; ninj[0] += k
        wf[b] = NS(injs=injs, phys=0 if same or w.choose(2) else w.choose(len(PHYS)), blind=w.choose(8) == 1)
        with R_OPEN(b + ".siren_weighter", "w") as f: f.write("w")
    for j in range(1 + w.choose(4)):
        b = list(wf)[j] if j < len(wf) and w.choose(3) else os.path.join(root, w.pick(["part", "sub/part"]) + str(j))
        ef[b] = [make_event(w, s) for _ in range(w.choose(4))]
        for e in ef[b]: e.key = s.uniform(0, 1)
        with R_OPEN(b + ".siren_events", "w") as f: f.write("e")
    raise_at = [-1]; ncall = [0]; built = []
    def weight(injs, tree):
        w.step("weight"); ncall[0] += 1
        if ncall[0] - 1 == raise_at[0]: w.count_fault("weighting-failed"); holder[0].wfail = True; raise ValueError("cannot weight this event")
        return formula(injs, tree)
    def formula(injs, tree): return 1.0 / sum(i.n * (1 + 0.01 * i.k) for i in injs) + tree.key
    class Wt2:
        def __init__(self, injs, base):
            f = wf[os.path.normpath(base)]; self.base, self.f, self.injs = os.path.normpath(base), f, list(injs) or list(f.injs); built.append(self)
            if f.blind: self.GetPrimaryPhysicalProcess = self.no
        def no(self): raise RuntimeError("not available")
        def GetInjectors(self): return list(self.injs)
        def GetPrimaryPhysicalProcess(self): return NS(interactions=Coll(*PHYS[self.f.phys][0]))
        def GetSecondaryPhysicalProcesses(self): return [NS(interactions=Coll(*c)) for c in PHYS[self.f.phys][1:]]
        def EventWeight(self, tree): return weight(self.injs, tree)
    loaded = []
    def load_trees(base):
        OUT.io("load-events"); t = [NS(tree=e.tree, key=e.key, header=NS(weights=list(e.header.weights), provenance=dict(e.header.provenance)), src=(os.path.normpath(base), i)) for i, e in enumerate(ef[os.path.normpath(base)])]
        loaded.append(t); return t
    OUT.load = load_trees
    def load_weighter(injs, base): OUT.io("load-weighter"); return Wt2(injs, base)
    OUT.weighter = load_weighter
    def spell(b, suffix):
        d, n = os.path.split(b); k = w.choose(5)
        return [b, d + "//" + n, d + "/./" + n, d + "/../" + os.path.basename(d) + "/" + n, b][k] + (suffix if w.choose(2) else "")
    opts = HOpts(); w.trivial = True
    if w.choose(3) == 1: opts.gzip = True
    if w.choose(2): opts.weights_state, opts.attempted_events, opts.accepted_events, opts.events_to_inject = "header", 900, 800, 1000
    for call in range(1 + w.choose(3)):
        use = w.choose(2) == 0; before = dict(vars(opts)); OUT.hep.clear(); loaded.clear(); built.clear(); ncall[0] = 0; raise_at[0] = w.choose(6) if w.choose(6) == 1 else -1
        o = opts if use else None; gz = opts.gzip if use else False; expect = None; res = {}
        outp = os.path.join(w.root, "o") + w.pick(["", ".hepmc3", ".hepmc3.gz", "x.dat"])
        if w.choose(4) == 1: # one file converted
            eb = w.pick(list(ef)); wk = w.choose(3); weighter = [None, lambda t: weight([Inj2(1, 3)], t), NS(EventWeight=lambda t: weight([Inj2(2, 5)], t))][wk]; given = w.choose(2); inp = eb + (".siren_events" if w.choose(2) else ""); kw = {} if o is None else {"options": o}
            def job():
                m = load(); return m.convert_siren_events_to_hepmc3(inp, outp if given else None, weighter=weighter, **kw)
            order = [(eb, i) for i in range(len(ef[eb]))]; target = outp if given else eb + ".hepmc3"
            if gz and not target.endswith(".gz"): target += ".gz"
            want = [None if wk == 0 else formula([Inj2(1, 3) if wk == 1 else Inj2(2, 5)], e) for e in ef[eb]]
            trusted = any(e.header.weights and str(e.header.provenance.get("siren.weights_state", "")).lower() != "unweighted" for e in ef[eb])
            state = "computed" if wk else "header" if trusted else "unweighted"; counts = {k: before[k] if use else -1 for k in ("attempted_events", "accepted_events", "events_to_inject")}; pooled = False
        else:
            pooled = True; entries = []; order = []; injs = []; seen_e, seen_w = set(), set(); sigs = []; percount = []; first = None
            for i in range(w.choose(5)):
                eb = w.pick(list(ef)); wb = w.pick(list(wf)) if w.choose(3) == 0 or eb not in wf else eb; missing = w.choose(25); unw = w.choose(25) == 1; counts = {k: w.choose(100) for k in ("attempted", "accepted", "events_to_inject") if w.choose(4)}
                if missing == 1: eb += "-missing"
                if missing == 2: wb += "-missing"
                kind = w.choose(3)
                if kind == 0 or unw:
                    e = {w.pick(["events", "events_path"]): spell(eb, ".siren_events")}
                    if wb != eb or w.choose(2): e[w.pick(["weighter", "weighter_path"])] = spell(wb, ".siren_weighter")
                    e.update(counts)
                    if unw: e["weights_state"] = w.pick(["unweighted", "Unweighted"])
                    elif w.choose(2): e["weights_state"] = w.pick(["computed", "header", None])
                elif kind == 1 or wb != eb: e = (spell(eb, ".siren_events"), spell(wb, ".siren_weighter")); counts = {}
                else: e = spell(eb, ""); counts = {}
                entries.append(e)
                if expect: continue
                if unw: expect = "an unweighted set"; continue
                if missing in (1, 2) : expect = "a set with a missing file"; continue
                if eb in seen_e: continue
                seen_e.add(eb); percount.append(counts); order += [(eb, k) for k in range(len(ef[eb]))]
                if first is None: first = wb
                if not wf[wb].blind: sigs.append(repr([(p, sorted([("p", p)] + [g for d, l in c for g in l], key=repr)) for p, c in PHYS[wf[wb].phys]]))
                if len(set(sigs)) > 1: expect = "sets of different physics"; continue
                if wb not in seen_w: seen_w.add(wb); injs += wf[wb].injs
            if not entries: expect = "no set"
            def job():
                m = load(); return m.combine_and_export_hepmc3(entries, outp, **({} if o is None else {"options": o}))
            target = outp if outp.endswith((".hepmc3", ".hepmc3.gz")) else outp + ".hepmc3"
            if gz and not target.endswith(".gz"): target += ".gz"
            state = "computed"; want = [formula(injs, ef[b][k]) for b, k in order] if injs else []
            counts = {}
            for f, n in (("attempted", "attempted_events"), ("accepted", "accepted_events"), ("events_to_inject", "events_to_inject")):
                counts[n] = sum(c[f] for c in percount) if percount and all(f in c for c in percount) else before[n] if use else -1
        p = w.spawn(f"call{call}", job); holder[0] = p; p.wfail = False
        if w.choose(5) == 1: p.add_fault("output-error", w.choose(8))
        w.run([p])
        w.log(f"{'pool' if pooled else 'convert'} {len(order)} events, expect {expect}: {'raised ' + type(p.exc).__name__ if p.exc is not None else 'returned'}")
        w.check(dict(vars(opts)) == before, "options-changed", f"the caller's writer options were {before} before the call and are {dict(vars(opts))} after it ({'raised' if p.exc is not None else 'returned'})")
        failed = p.wfail or "output-error" in p.fired
        if p.exc is not None:
            w.check(expect or failed or p.hard, "spurious-failure", f"{'pooling' if pooled else 'converting'} raised {type(p.exc).__name__}: {p.exc}")
            w.check(not OUT.hep, "exported-anyway", "a file was exported although the call raised"); w.probe("raised"); continue
        w.check(not expect, "not-refused", f"pooling accepted {expect}"); w.check(not failed, "failure-hidden", "a file could not be read or written, or an event not weighted, yet the call returned normally")
        w.check(len(OUT.hep) == 1, "export-count", f"{len(OUT.hep)} files were exported"); fn, trees, hw, ov = OUT.hep[0]; w.trivial = False
        w.check(fn == target and (p.ret[0] if pooled else p.ret) == target, "wrong-path", f"exported to {fn}, reported {p.ret if not pooled else p.ret[0]}, expected {target}")
        w.check([t.src for t in trees] == order, "wrong-events", f"{len(trees)} events exported, {len(order)} expected in order")
        for i, ((b, k), h) in enumerate(zip(order, hw)):
            old = list(ef[b][k].header.weights); exp = old if want[i] is None else [want[i]] + old[1:]
            w.check(len(h) == len(exp) and all(abs(x - y) <= 1e-12 * abs(y) for x, y in zip(h, exp)), "wrong-weight", f"event {i} was exported with weights {h}, expected {exp}")
        w.check(ov["weights_state"] == state, "wrong-state", f"exported as {ov['weights_state']!r}, expected {state!r}")
        for n, v in counts.items(): w.check(ov[n] == v, "wrong-count", f"exported with {n} = {ov[n]}, expected {v}")
        if pooled:
            w.check([float(x) for x in p.ret[1]] == [h[0] for h in hw], "wrong-weight", "the returned weights are not the exported ones")
        w.probe("pooled" if pooled else "converted")

# ---------------------------------------------------------------- C24
DLCODE = None
def load_dl(util):
    global DLCODE
    path = os.path.join(REPO, "python", "download.py")
    if DLCODE is None:
        with R_OPEN(path) as f: DLCODE = compile(f.read(), path, "exec")
    d = types.ModuleType("siren.download"); d.__file__ = path; d.__package__ = "siren"; sys.modules["siren._util"] = util; sys.modules["siren"]._util = util; exec(DLCODE, d.__dict__); return d
def sc_prefetch(w):
    import builtins
    res = os.path.join(w.root, "pkg", "resources"); ALL = {}; calls = []
    for rtype, folder in (("detector", "detectors"), ("flux", "fluxes"), ("processes", "processes")):
        os.makedirs(os.path.join(res, folder))
        for n in ("Aa", "Bee", "Cyan"):
            if w.choose(2): continue
            kind = w.weighted([5, 2, 2, 2, 1, 1]); vers = 1 + w.choose(2) if w.choose(2) else 0
            dirs = [os.path.join(res, folder, n, f"{n}-v{v + 1}") for v in range(vers)] or [os.path.join(res, folder, n)]
            for k, d in enumerate(dirs):
                os.makedirs(d); live = k == len(dirs) - 1
                src = f"mark({rtype!r}, {n!r}, 'import', {live})\n"
                if kind != 2: src += f"def fetch_data():\n    mark({rtype!r}, {n!r}, 'fetch', {live})\n"
                if kind == 3: src += f"mark({rtype!r}, {n!r}, 'after', {live})\n"
                if kind not in (4, 5) or (kind == 5 and not live):
                    with R_OPEN(os.path.join(d, rtype + ".py"), "w") as f: f.write(src)
                elif kind == 5:
                    with R_OPEN(os.path.join(d, rtype + ".py"), "w") as f: f.write("this is not python(\n")
            ALL[(rtype, n)] = kind
    plan = {}
    for key, kind in ALL.items():
        if kind == 1 and w.choose(4): plan[key] = ("fetch", w.pick([ValueError, OSError, ConnectionError, MemoryError, ImportError, KeyError, TimeoutError]))
        elif kind == 3: plan[key] = ("after", w.pick([ValueError, OSError, ImportError, NameError]))
    def mark(t, n, what, live):
        w.step(f"{t} {n} {what}")
        if not live: w.fail("wrong-version", f"the script of an older version of {t} {n} was run")
        if what == "fetch": calls.append((t, n))
        pl = plan.get((t, n))
        if pl and pl[0] == what: w.count_fault("script-" + pl[1].__name__); raise pl[1]("injected")
    builtins.mark = mark; w.trivial = True
    for k in range(1 + w.choose(2)):
        calls.clear(); names = [w.pick(["Aa", "Bee", "Cyan", "Cyan", "Zed", "bee"]) for _ in range(w.choose(4))]; cli = w.choose(2) == 0
        order = names or sorted({n for _, n in ALL})
        def job():
            m = load(); m.resource_package_dir = lambda: res; d = load_dl(m)
            if not cli: return d._cmd_fetch(list(names))
            old = sys.argv; sys.argv = ["siren-download"] + (["--fetch"] + names if names else ["--fetch-all"])
            try: return d.main()
            finally: sys.argv = old
        p = w.spawn(f"F{k}", job)
        if w.choose(5) == 1: p.add_fault(w.pick(["read-error", "open-error"]), w.choose(4), errno="EIO", frac=0.5)
        w.run([p]); w.log(f"fetch {names} of {sorted(ALL.items())}: {p.ret if p.exc is None else type(p.exc).__name__}")
        w.check(p.exc is None, "raised", f"prefetching raised {type(p.exc).__name__}: {p.exc}")
        want, bad = [], False
        for n in order:
            cats = [t for t in ("detector", "flux", "processes") if (t, n) in ALL]
            if not cats: bad = True; continue
            for t in cats:
                kind = ALL[(t, n)]; pl = plan.get((t, n))
                if pl: bad = True
                if kind in (0, 1) and not (pl and pl[0] == "after"): want.append((t, n))
                if kind == 5: bad = True
                if kind == 4: bad = None if bad is False else bad    # a resource without any loader script may or may not count as a failure
        if p.hard: # a disk error hit at most one script: that failure is reported and the rest is still attempted
            w.probe("disk-error"); lost = list(want)
            for c in calls: w.check(c in lost, "not-attempted", f"prefetching {names or 'everything'} called the fetch function of {calls}, expected {want}"); lost.remove(c)
            w.check(len(lost) <= 1, "not-attempted", f"one script could not be read, and {lost} were not fetched"); w.check(not lost or p.ret != 0, "failure-hidden", f"{lost} could not be read, yet prefetching reported success"); continue
        w.check(sorted(calls) == sorted(want), "not-attempted", f"prefetching {names or 'everything'} called the fetch function of {calls}, expected {want}")
        if bad is not None: w.check((p.ret != 0) == bad, "wrong-status", f"prefetching {names or 'everything'} returned {p.ret}, {'something failed' if bad else 'nothing failed'}")
        if want: w.trivial = False
        w.probe("prefetched")
# ---------------------------------------------------------------- C26
CTLCODE = None
def load_controller(util, **k):
    global CTLCODE
    path = os.path.join(REPO, "python", "SIREN_Controller.py")
    if CTLCODE is None:
        with R_OPEN(path) as f: CTLCODE = compile(f.read(), path, "exec")
    s = sys.modules["siren"]; s.darknews_version = lambda: None; s._util = util; sys.modules["siren._util"] = util
    for n in ("utilities", "detector", "distributions", "geometry"):
        if n not in s.__dict__: m = types.ModuleType("siren." + n); sys.modules[m.__name__] = m; setattr(s, n, m)
    s.utilities.SIREN_random = lambda *a: NS(seed=a)
    s.detector.DetectorModel = type("DetectorModel", (), dict(LoadMaterialModel=lambda self, f: None, LoadDetectorModel=lambda self, f: None, ParseFiducialVolume=staticmethod(lambda a, b: NS(IsInside=lambda pos, d: pos.v[0] > 0))))
    s.injection.PrimaryInjectionProcess = s.injection.SecondaryInjectionProcess = s.injection.PhysicalProcess = lambda *a: NS(primary_type=14, distributions=[])
    s.injection._Injector = lambda *a: OUT.injector(*a)
    m = types.ModuleType("siren.SIREN_Controller"); m.__file__ = path; m.__package__ = "siren"; exec(CTLCODE, m.__dict__); return m
def sc_controller(w):
    global OUT
    import random
    s = random.Random(w.choose(1 << 30)); holder = [None]; OUT = Recorder(w, holder); w.trivial = True; made = []
    def event(empty):
        e = make_event(w, s); e.n = len(made)
        if empty: e.tree = []
        elif not e.tree:
            while not e.tree: e.tree = make_event(w, s).tree
        for d in e.tree:
            r = d.record; r.interaction_time, r.primary_initial_time, r.primary_initial_position = s.uniform(0, 9), s.uniform(0, 9), [s.uniform(-9, 9) for _ in range(3)]
            d.daughter_indices = [i for i, x in enumerate(e.tree) if not x._root and e.tree[x.parent_index] is d]
            r.secondary_times = [s.uniform(0, 9) for _ in r.secondary_momenta] if w.choose(6) else []; r.interaction_parameters = {k: s.uniform(0, 1) for k in ("y", "Q2") if s.random() < 0.7}
        made.append(e); return e
    class CInj:
        """counts like the compiled injector: attempts are limited, failed ones give empty events"""
        def __init__(self, n): self.n, self.att, self.inj = n, 0, 0
        def InjectionAttempts(self): return self.att
        def InjectedEvents(self): return self.inj
        def EventsToInject(self): return self.n
        def ResetInjectedEvents(self): self.att = self.inj = 0
        def SetStoppingCondition(self, f): pass
        def SaveInjector(self, fn): OUT.io("injector-write"); saved.append(fn)
        number_of_events, injected_events, injection_attempts = property(EventsToInject), property(InjectedEvents), property(InjectionAttempts)
        def GenerateEvent(self):
            w.step("generate")
            if self.att >= self.n: raise RuntimeError("Injector has already made the maximum number of injection attempts!")
            self.att += 1; dt = w.pick([0.5, 0.0, 3.0, -2.0]); w.now += dt
            if dt < 0: w.count_fault("clock-back")
            if w.choose(25) == 1: w.count_fault("generation-error"); holder[0].gfail = True; raise MemoryError("injected")
            fail = w.choose(4) == 1
            if fail: w.count_fault("generation-failed")
            e = event(fail); self.inj += not fail; truth.append((e, dt, w.now)); return e
        generate_event = GenerateEvent
    truth, saved, wcalls, bad_weight = [], [], [], [False]
    class Wt:
        def EventWeight(self, e):
            w.step("weight")
            if w.choose(40) == 1: w.count_fault("weighting-failed"); holder[0].wfail = True; raise ValueError("cannot weight this event")
            return 100.0 + e.n
        def GetInteractionProbabilities(self, e, i=0): return [0.1 + e.n] * len(e.tree)
        def GetSurvivalProbabilities(self, e, i=0): return [0.2 + e.n] * len(e.tree)
        def SaveWeighter(self, fn): OUT.io("weighter-write"); saved.append(fn + " w")
    OUT.weighter = lambda *a: Wt(); nfile = 3 + w.choose(8); N = 1 + w.choose(12); current = [None]
    def mk(n, a, *r): current[0] = CInj(nfile if isinstance(a, str) else n); return current[0]
    OUT.injector = mk
    det = os.path.join(w.root, "densities.dat"); fid = w.choose(2) == 1
    with R_OPEN(det, "w") as f: f.write("detector 0 0 0\nfiducial sphere 0 0 0 1\n" if fid else "object x\n")
    files = {}
    def call(name, f, **a):
        p = w.spawn(name, f); holder[0] = p; p.gfail = p.wfail = False
        if a.get("faults") and w.choose(6) == 1: p.add_fault("output-error", w.choose(7))
        w.run([p]); w.log(f"{name}: {'raised ' + type(p.exc).__name__ if p.exc is not None else 'returned'}"); return p
    start = [None]
    def build():
        m = load(); m.resource_package_dir = lambda: w.root; C = load_controller(m).SIREN_Controller; start[0] = w.now; c = C(N, detector_model_file=det, materials_model_file=det) if fid or w.choose(2) else C(N, detector_model=NS())
        return m, c
    p = call("construct", build); w.check(p.exc is None, "spurious-failure", f"creating the controller raised {type(p.exc).__name__}: {p.exc}"); m, c = p.ret
    ev, gt, gl = [], [], []; weighted = None
    for _ in range(2 + w.choose(7)):
        k = w.weighted([3, 6, 5, 2, 2])
        if k == 0 or (current[0] is None and k == 1):
            fn = w.pick([None, "a", ["a", "b"]]); how = w.choose(2)
            p = call("initialize", lambda: c.Initialize(fn) if how else c.InitializeInjector(fn)); w.check(p.exc is None, "spurious-failure", f"initialising raised {type(p.exc).__name__}: {p.exc}")
            current[0] = c.injector
            if how: weighted = True
        elif k == 1:
            n = w.pick([None, 0, 1, 2, 4, 30]); inj = current[0]; truth.clear(); a0, i0 = inj.att, inj.inj
            p = call("generate", lambda: c.GenerateEvents(**({} if n is None else {"N": n}), verbose=w.choose(2) == 1))
            for e, dt, t in truth: ev.append(e); gt.append(dt); gl.append(t - start[0])
            if p.gfail: gt_unsure = True
            w.check(p.exc is None or p.gfail, "spurious-failure", f"generating {n} events with {inj.att} of {inj.n} attempts used raised {type(p.exc).__name__ if p.exc else ''}: {p.exc}")
            w.check(p.exc is not None or not p.gfail, "failure-hidden", "the generation of an event raised, yet the batch returned normally")
            if p.exc is None:
                lim = N if n is None else n; done = len(truth); more = inj.att < inj.n and inj.inj < N
                w.check(done <= lim, "too-many", f"{done} events were generated, {lim} were asked for"); w.check(done == lim or not more, "too-few", f"{done} of {lim} events were generated although the injector had {inj.n - inj.att} attempts left")
            w.check(len(c.events) == len(ev) and all(a is b for a, b in zip(c.events, ev)), "lost-events", f"{len(ev)} events were made or loaded so far, the controller holds {len(c.events)}")
            w.probe("generated"); w.trivial = w.trivial and not ev
            if p.exc is not None: gt_now = list(c.gen_times); w.check(len(gt_now) == len(ev) == len(c.global_times), "lost-times", f"{len(ev)} events have {len(gt_now)} generation times and {len(c.global_times)} global times after a failed batch")
        elif k == 2:
            h5, pq, nat, hep, ip, sp, par, gz = [w.choose(2) == 0 for _ in range(8)]; OUT.hdf5.clear(); OUT.parquet.clear(); OUT.native.clear(); OUT.hep.clear(); saved.clear(); old = [list(e.header.weights) for e in ev]
            p = call("save", lambda: c.SaveEvents("out", hdf5=h5, parquet=pq, siren_events=nat, save_int_probs=ip, save_survival_probs=sp, save_int_params=par, verbose=False, hepmc3=hep, hepmc3_gzip=gz), faults=True)
            if p.exc is not None: w.check(p.hard or p.wfail or "output-error" in p.fired, "spurious-failure", f"saving {len(ev)} events ({sum(1 for e in ev if not e.tree)} empty) raised {type(p.exc).__name__}: {p.exc}"); w.probe("save-raised"); continue
            w.check(not p.wfail and "output-error" not in p.fired, "failure-hidden", "an output or weight failed, yet saving returned normally")
            w.check((len(OUT.native), len(OUT.hep), len(OUT.hdf5), len(OUT.parquet)) == (nat, hep, h5, pq), "output-missing", f"outputs written: {len(OUT.native)} native, {len(OUT.hep)} hepmc3, {len(OUT.hdf5)} hdf5, {len(OUT.parquet)} parquet")
            want_saved = (["out.siren_injector"] if current[0] is not None else []) + (["out w"] if weighted else [])
            w.check(sorted(saved) == sorted(want_saved), "output-missing", f"injector and weighter files written: {saved}, expected {want_saved}")
            trusted = any(o and str(e.header.provenance.get("siren.weights_state", "")).lower() != "unweighted" for e, o in zip(ev, old))
            exp = [100.0 + e.n for e in ev] if weighted else [o[0] if o else 1.0 for o in old] if (nat or hep) and trusted else [0] * len(ev)
            for _, trees, *r in OUT.native + OUT.hep: w.check(len(trees) == len(ev) and all(a is b for a, b in zip(trees, ev)), "wrong-events", f"{len(trees)} events were written, {len(ev)} are there")
            for fn, trees, hw, o in OUT.hep:
                if current[0] is not None: w.check((o["attempted_events"], o["accepted_events"], o["events_to_inject"]) == (current[0].att, current[0].inj, current[0].n), "wrong-count", f"the file says {o}, the injector made {current[0].att} attempts, {current[0].inj} events of {current[0].n}")
            L = lambda x: [list(map(float, v)) for v in x]
            for kind, a in [("hdf5", g.get("array")) for fn, g in OUT.hdf5] + [("parquet", a) for fn, a in OUT.parquet]:
                d = a.d
                cols = ["event_weight", "event_gen_time", "event_global_time", "event_weight_time", "num_interactions", "vertex", "vertex_time", "primary_initial_position", "primary_initial_time", "in_fiducial", "primary_type", "target_type", "num_secondaries", "secondary_types", "primary_momentum", "secondary_momenta", "secondary_times", "parent_idx", "num_daughters"] + ["int_probs"] * ip + ["survival_probs"] * sp
                for col in cols: w.check(col in d and len(d[col]) == len(ev), "row-count", f"column {col} has {len(d.get(col, []))} entries for {len(ev)} events")
                for i, e in enumerate(ev):
                    T = e.tree
                    def eq(col, got, want): w.check(got == want, "row-mismatch", f"{kind} column {col} of event {i} ({len(T)} interactions) is {got}, expected {want}")
                    eq("event_weight", d["event_weight"][i], exp[i]); eq("num_interactions", d["num_interactions"][i], len(T))
                    w.check(abs(d["event_gen_time"][i] - gt[i]) < 1e-3 or gt[i] is None, "row-mismatch", f"event {i} took {gt[i]} s to generate, {d['event_gen_time'][i]} were exported")
                    w.check(abs(d["event_global_time"][i] - gl[i]) < 1e-3, "row-mismatch", f"event {i} was made {gl[i]} s after the start, {d['event_global_time'][i]} were exported")
                    eq("vertex", L(d["vertex"][i]), L(x.record.interaction_vertex for x in T)); eq("vertex_time", list(d["vertex_time"][i]), [x.record.interaction_time for x in T])
                    eq("primary_initial_position", L(d["primary_initial_position"][i]), L(x.record.primary_initial_position for x in T)); eq("primary_initial_time", list(d["primary_initial_time"][i]), [x.record.primary_initial_time for x in T])
                    eq("in_fiducial", [bool(x) for x in d["in_fiducial"][i]], [bool(c.fid_vol is not None and x.record.interaction_vertex[0] > 0) for x in T])
                    eq("primary_type", list(d["primary_type"][i]), [x.record.signature.primary_type for x in T]); eq("target_type", list(d["target_type"][i]), [x.record.signature.target_type for x in T])
                    eq("num_secondaries", list(d["num_secondaries"][i]), [len(x.record.secondary_momenta) for x in T]); eq("secondary_types", [list(x) for x in d["secondary_types"][i]], [x.record.signature.secondary_types for x in T])
                    eq("primary_momentum", L(d["primary_momentum"][i]), L(x.record.primary_momentum for x in T)); eq("secondary_momenta", [L(x) for x in d["secondary_momenta"][i]], [L(x.record.secondary_momenta) for x in T])
                    eq("secondary_times", [list(x) for x in d["secondary_times"][i]], [x.record.secondary_times if len(x.record.secondary_times) == len(x.record.secondary_momenta) else [x.record.interaction_time] * len(x.record.secondary_momenta) for x in T])
                    eq("parent_idx", list(d["parent_idx"][i]), [-1 if x._root else x.parent_index for x in T]); eq("num_daughters", list(d["num_daughters"][i]), [len(x.daughter_indices) for x in T])
                    if ip: eq("int_probs", list(d["int_probs"][i]), [0.1 + e.n] * len(T) if weighted else [])
                    if sp: eq("survival_probs", list(d["survival_probs"][i]), [0.2 + e.n] * len(T) if weighted else [])
                    if par:
                        want = {}
                        for x in T:
                            for q, v in x.record.interaction_parameters.items(): want.setdefault(q, []).append(v)
                        eq("int_params", dict(d["int_params"][i]), want)
            w.probe("saved")
        elif k == 3:
            l = [event(w.choose(4) == 1) for _ in range(w.choose(4))]
            def load_trees(fn): OUT.io("load-events"); return list(l)
            OUT.load = load_trees; p = call("load", lambda: c.LoadEvents("in"), faults=True)
            w.check(p.exc is None or "output-error" in p.fired, "spurious-failure", f"loading raised {type(p.exc).__name__}: {p.exc}")
            if p.exc is None: w.check("output-error" not in p.fired, "failure-hidden", "the events could not be loaded, yet the call returned"); ev, gt, gl = list(l), [0.0] * len(l), [0.0] * len(l); w.probe("loaded")
            w.check(len(c.events) == len(ev) and all(a is b for a, b in zip(c.events, ev)), "lost-events", f"{len(ev)} events were loaded, the controller holds {len(c.events)}")
        else:                       # the same loop without a controller
            inj = CInj(1 + w.choose(9)); got = []
            for _ in range(1 + w.choose(3)):
                n = w.pick([None, 1, 2, 5]); truth.clear()
                p = call("generate alone", lambda: m.GenerateEvents(inj, **({} if n is None else {"N": n})))
                w.check(p.exc is None or p.gfail, "spurious-failure", f"generating {n} events with {inj.att} of {inj.n} attempts used raised {type(p.exc).__name__ if p.exc else ''}: {p.exc}")
                if p.exc is not None: break
                es, ts = p.ret; lim = inj.n if n is None else n
                w.check(len(es) == len(ts) == len(truth) and all(a is b[0] for a, b in zip(es, truth)), "lost-events", f"{len(truth)} events were made, {len(es)} returned with {len(ts)} times")
                for i, (t, b) in enumerate(zip(ts, truth)): w.check(abs(t - b[1]) < 1e-3, "row-mismatch", f"event {i} took {b[1]} s, {t} were recorded")
                w.check(len(es) <= lim and (len(es) == lim or inj.att >= inj.n or inj.inj >= inj.n), "too-few", f"{len(es)} of {lim} events were generated although the injector had {inj.n - inj.att} attempts left")
S = {"controller": sc_controller, "export": sc_export, "script": sc_script, "combine": sc_combine, "prefetch": sc_prefetch}
for f in S.values(): f.setup = load
if __name__ == "__main__": simpy.drive(S)
