"""Simulation of python/Injector.py and python/Weighter.py over recording stand-ins for the compiled classes (C25)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simpy
from simpy import R_OPEN
import types, enum, logging
REPO = os.environ.get("SIREN_REPO", "/repo")
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)
ENV = None          # the run the stand-ins report to
CODE = {}

class ParticleType(enum.IntEnum): NuMu = 14; NuE = 12; N4 = 5914; MuMinus = 13; Gamma = 22
class Key:
    def __init__(self, k): self.k = k
    def __repr__(self): return f"{type(self).__name__}{self.k}"
class CrossSection(Key): pass
class Decay(Key): pass
class DetectorModel(Key): pass
class WeightableDistribution(Key): pass
class PrimaryInjectionDistribution(WeightableDistribution): pass
class SecondaryInjectionDistribution(WeightableDistribution): pass
class Tree(Key): pass
class Random:
    def __init__(self, seed=None):
        if seed is not None and (type(seed) is not int or not 0 <= seed < 2**32): raise TypeError("incompatible constructor arguments")
        self.seed, self.pos = ENV.newseed() if seed is None else seed, 0
    def Uniform(self, a=0.0, b=1.0): self.pos += 1; return a + (b - a) * (hash((self.seed, self.pos)) % 1000) / 1000.0
    def set_seed(self, s): self.seed, self.pos = s, 0
    def get_seed(self): return self.seed
    @staticmethod
    def generate_seed(): return ENV.newseed()
class Collection:
    def __init__(self, ptype, *lists):
        ENV.call("collection"); l = [x for a in lists for x in a]
        if not all(isinstance(x, (CrossSection, Decay)) for x in l) or not isinstance(ptype, ParticleType): raise TypeError("incompatible constructor arguments")
        self.ptype, self.xs, self.dec = ptype, [x for x in l if isinstance(x, CrossSection)], [x for x in l if isinstance(x, Decay)]
    def GetPrimaryType(self): return self.ptype
    def SetPrimaryType(self, t): self.ptype = t
    def GetCrossSections(self): return list(self.xs)
    def GetDecays(self): return list(self.dec)
    def HasCrossSections(self): return bool(self.xs)
    def HasDecays(self): return bool(self.dec)
    def key(self): return (int(self.ptype), keys(self.xs), keys(self.dec))
def keys(l): return tuple(repr(x) for x in l)
class Process:
    kind = WeightableDistribution
    def __init__(self, ptype=None, coll=None):
        ENV.call("process"); self._c = self._t = None; self._d = []
        if ptype is not None: self.primary_type = ptype
        if coll is not None: self.interactions = coll
    @property
    def primary_type(self): return self._t
    @primary_type.setter
    def primary_type(self, t):
        if not isinstance(t, ParticleType): raise TypeError("incompatible function arguments")
        self._t = t
        if self._c is not None: self._c.SetPrimaryType(t)
    @property
    def interactions(self): return self._c
    @interactions.setter
    def interactions(self, c):
        if not isinstance(c, Collection): raise TypeError("incompatible function arguments")
        self._c, self._t = c, c.GetPrimaryType()
    @property
    def distributions(self): return list(self._d)
    @distributions.setter
    def distributions(self, d):
        if not all(isinstance(x, self.kind) for x in d): raise TypeError("incompatible function arguments")
        if type(self) is not SecondaryProcess: ENV.call("distributions")
        self._d = list(d)
    def key(self): return (int(self._t), self._c.key(), keys(self._d))
class PhysicalProcess(Process): pass
class PrimaryProcess(Process): kind = PrimaryInjectionDistribution
class SecondaryProcess(Process):
    kind = SecondaryInjectionDistribution
    secondary_type = property(lambda s: s._t, lambda s, t: Process.primary_type.fset(s, t))
def clone(p):
    q = type(p)(); q._t, q._d = p._t, [type(d)(d.k) for d in p._d]; q._c = Collection(p._c.ptype, [type(x)(x.k) for x in p._c.xs + p._c.dec]); return q
class CInjector:
    """What the compiled injector keeps: everything but the generator and the stopping condition is archived."""
    def __init__(self, n, a, *rest):
        ENV.call("injector"); self.stop = None; self.count = self.att = 0; self.random = rest[-1]; self.n, self.det, self.pp, self.sp = n, None, None, []
        if isinstance(a, str): self.LoadInjector(a); ENV.made += 1; return
        if not isinstance(a, DetectorModel) or not isinstance(self.random, Random): raise TypeError("incompatible constructor arguments")
        self.det = a
        if len(rest) > 1: self.pp = rest[0]
        if len(rest) > 2: self.sp = list(rest[1])
        ENV.made += 1
    def SetStoppingCondition(self, f): "SetStoppingCondition"; self.stop = f
    def GetStoppingCondition(self): "GetStoppingCondition"; return self.stop
    def SetPrimaryProcess(self, p): "SetPrimaryProcess"; self.pp = p
    def AddSecondaryProcess(self, p): "AddSecondaryProcess"; self.sp.append(p)
    def GetPrimaryProcess(self): "GetPrimaryProcess"; return self.pp
    def GetSecondaryProcesses(self): "GetSecondaryProcesses"; return list(self.sp)
    def GetSecondaryProcessMap(self): "GetSecondaryProcessMap"; return {p.primary_type: p for p in sorted(self.sp, key=lambda p: int(p.primary_type))}
    def NewRecord(self): "NewRecord"; return ("record", int(self.pp.primary_type))
    def SetRandom(self, r):
        "SetRandom"
        if not isinstance(r, Random): raise TypeError("incompatible function arguments")
        self.random = r
    def GenerateEvent(self):
        "GenerateEvent"; ENV.call("generate")
        if self.random is None: ENV.w.fail("no-generator", "an injector without a random generator was asked for an event (the compiled one crashes)")
        if self.att >= self.n: raise RuntimeError("no more events")
        self.random.Uniform(); self.att += 1; self.count += 1; return ("event", self.count, self.random.seed, self.random.pos, self.key())
    def key(self): return (self.n, repr(self.det), self.pp.key(), tuple(p.key() for p in sorted(self.sp, key=lambda p: int(p.primary_type))), self.stop)
    def DensityVariables(self): "DensityVariables"; return [["v"]]
    def Name(self): "Name"; return "Injector"
    def GetPrimaryInjectionDistributions(self): "GetPrimaryInjectionDistributions"; return self.pp.distributions
    def GetDetectorModel(self): "GetDetectorModel"; return self.det
    def SetDetectorModel(self, d):
        "SetDetectorModel"; ENV.call("detector")
        if not isinstance(d, DetectorModel): raise TypeError("incompatible function arguments")
        self.det = d
    def GetInteractions(self): "GetInteractions"; return self.pp.interactions
    def InjectedEvents(self): "InjectedEvents"; return self.count
    def InjectionAttempts(self): "InjectionAttempts"; return self.att
    def EventsToInject(self): "EventsToInject"; return self.n
    def ResetInjectedEvents(self): "ResetInjectedEvents"; self.count = self.att = 0
    def state(self): return (self.n, self.att, self.count, DetectorModel(self.det.k), clone(self.pp), [clone(p) for p in self.sp])
    def restore(self, s): self.n, self.att, self.count, self.det, self.pp, self.sp = s[0], s[1], s[2], DetectorModel(s[3].k), clone(s[4]), [clone(p) for p in s[5]]
    def SaveInjector(self, fn): "SaveInjector"; ENV.call("save"); ENV.files[fn] = self.state()
    def LoadInjector(self, fn):
        "LoadInjector"; ENV.call("load")
        if fn not in ENV.files: raise RuntimeError("Failed to read bytes from input stream")
        self.restore(ENV.files[fn])
    def __getstate__(self): return ("archive", self.state())
    def __setstate__(self, s): self.random = self.stop = None; self.restore(s[1])
def frozen(i): j = CInjector.__new__(CInjector); j.__setstate__(i.__getstate__()); return j
class CWeighter:
    def __init__(self, injs, a, pp=None, sps=()):
        ENV.call("weighter"); injs = list(injs)
        if not all(isinstance(i, CInjector) for i in injs): raise TypeError("incompatible constructor arguments")
        self.injs = injs
        if isinstance(a, str):
            self.LoadWeighter(a)
            if injs: self.injs = injs
            return
        if not isinstance(a, DetectorModel): raise TypeError("incompatible constructor arguments")
        self.det, self.pp, self.sps = a, pp, list(sps)
    def key(self): return (tuple(i.key()[:4] + (i.count,) for i in self.injs), repr(self.det), self.pp.key(), tuple(p.key() for p in sorted(self.sps, key=lambda p: int(p.primary_type))))
    def EventWeight(self, t): ENV.call("weight"); return ("weight", repr(t), self.key())
    def GetInjectors(self): return list(self.injs)
    def GetDetectorModel(self): return self.det
    def GetPrimaryPhysicalProcess(self): return self.pp
    def GetSecondaryPhysicalProcesses(self): return list(self.sps)
    def GetInteractionProbabilities(self, t, i_inj=0): ENV.call("weight"); return (("interaction", repr(t), i_inj), self.key())
    def GetSurvivalProbabilities(self, t, i_inj=0): ENV.call("weight"); return (("survival", repr(t), i_inj), self.key())
    def SaveWeighter(self, fn): ENV.call("save"); ENV.wfiles[fn] = ([frozen(i) for i in self.injs], DetectorModel(self.det.k), clone(self.pp), [clone(p) for p in self.sps])
    def LoadWeighter(self, fn):
        ENV.call("load")
        if fn not in ENV.wfiles: raise RuntimeError("Failed to read bytes from input stream")
        self.injs, d, p, s = ENV.wfiles[fn]; self.injs = [frozen(i) for i in self.injs]; self.det, self.pp, self.sps = DetectorModel(d.k), clone(p), [clone(x) for x in s]
class Env:
    def __init__(self, w): self.w, self.files, self.wfiles, self.nseed, self.nkey, self.made = w, {}, {}, 0, 0, 0
    def newseed(self): self.nseed += 1; return (0x9e3779b97f4a7c15 * self.nseed) % 2**64
    def call(self, what):
        self.w.step(what); p = self.w.current()
        if p is not None and p.fault("call-error") is not None: p.hit = True; raise (MemoryError if what in ("collection", "process") else RuntimeError)("injected")
def load():
    def mod(n, **k):
        m = types.ModuleType(n); m.__dict__.update(k); sys.modules[n] = m; return m
    s = mod("siren"); s.__path__ = []
    for n, k in (("utilities", dict(SIREN_random=Random)), ("math", {}), ("dataclasses", dict(ParticleType=ParticleType, InteractionTree=Tree, InteractionTreeDatum=object)), ("geometry", {}), ("detector", dict(DetectorModel=DetectorModel)), ("interactions", dict(CrossSection=CrossSection, Decay=Decay, InteractionCollection=Collection)),
                 ("distributions", dict(PrimaryInjectionDistribution=PrimaryInjectionDistribution, SecondaryInjectionDistribution=SecondaryInjectionDistribution, WeightableDistribution=WeightableDistribution)),
                 ("injection", dict(_Injector=CInjector, Injector=CInjector, _Weighter=CWeighter, Weighter=CWeighter, PrimaryInjectionProcess=PrimaryProcess, SecondaryInjectionProcess=SecondaryProcess, PhysicalProcess=PhysicalProcess))): setattr(s, n, mod("siren." + n, **k))
    for n in ("Injector", "Weighter"):
        path = os.path.join(REPO, "python", n + ".py")
        if n not in CODE:
            with R_OPEN(path) as f: CODE[n] = compile(f.read(), path, "exec")
        m = mod("siren." + n, __file__=path, __package__="siren"); exec(CODE[n], m.__dict__); setattr(s, n, m)
    return s.Injector.Injector, s.Weighter.Weighter

def stop_a(*a): return True
def stop_b(*a): return False
class Model:
    """The configuration a wrapper was given; c: what is kept by the compiled object once there is one."""
    def __init__(self, **k): self.__dict__.update(k)
    def copy(self): return Model(**{n: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for n, v in vars(self).items()})
PROPS = ["number_of_events", "detector_model", "seed", "primary_type", "primary_interactions", "primary_injection_distributions", "secondary_interactions", "secondary_injection_distributions", "stopping_condition"]
def coll_key(t, l): return (int(t), keys(x for x in l if isinstance(x, CrossSection)), keys(x for x in l if isinstance(x, Decay)))
def inj_key(m): return (m.number_of_events, repr(m.detector_model), (int(m.primary_type), coll_key(m.primary_type, m.primary_interactions), keys(m.primary_injection_distributions)),
                        tuple((int(t), coll_key(t, m.secondary_interactions[t]), keys(m.secondary_injection_distributions[t])) for t in sorted(m.secondary_interactions)), m.stopping_condition)
def norm(v):
    if isinstance(v, dict): return {int(k): sorted(keys(x)) for k, x in v.items()}
    if isinstance(v, list): return sorted(keys(v))
    return repr(v) if isinstance(v, Key) else v
def sc_wrapper(w):
    global ENV
    ENV = Env(w); e = ENV; Inj, Wt = load(); nk = lambda: (setattr(e, "nkey", e.nkey + 1), e.nkey)[1]; w.trivial = True
    ints = lambda: [w.pick([CrossSection, Decay])(nk()) for _ in range(1 + w.choose(3))]
    dists = lambda c: [c(nk()) for _ in range(1 + w.choose(2))]
    types_ = lambda: [t for t in (ParticleType.N4, ParticleType.MuMinus) if w.choose(2)]
    def value(n, m=None):
        if n == "number_of_events": return w.pick([3, 7, 40])
        if n == "detector_model": return DetectorModel(nk())
        if n == "seed": return w.pick([1, 77, 2**31, 2**63 + 5])
        if n == "primary_type": return w.pick([ParticleType.NuMu, ParticleType.NuE])
        if n == "primary_interactions": return ints()
        if n == "primary_injection_distributions": return dists(PrimaryInjectionDistribution)
        if n == "stopping_condition": return w.pick([stop_a, stop_b])
        ts = list(m.secondary_interactions) if m is not None and w.choose(4) else types_()
        return {t: ints() if n == "secondary_interactions" else dists(SecondaryInjectionDistribution) for t in ts}
    class Box: pass
    boxes = []; every = []
    def do(name, f, expect=None, faults=True):
        """runs f as one call under faults; expect: why it has to raise"""
        p = w.spawn(name, f); p.hit = False; made = e.made; e.born = False
        if faults and w.choose(7) == 1: p.add_fault("call-error", w.choose(3))
        w.run([p]); e.born = e.made > made; w.log(f"{name}: {'raised ' + type(p.exc).__name__ if p.exc is not None else 'returned'}")
        if p.exc is not None:
            w.check(expect or p.hit, "spurious-failure", f"{name} raised {type(p.exc).__name__}: {p.exc}"); w.probe("refused" if expect else "failed"); return False, None
        w.check(not p.hit, "failure-hidden", f"a call inside {name} failed, yet it returned normally"); w.check(not expect, "not-refused", f"{name} was accepted although {expect}")
        return True, p.ret
    def unready(m):
        if not m.number_of_events or m.number_of_events <= 0: return "no number of events is set"
        if m.detector_model is None: return "no detector is set"
        if m.primary_type is None: return "no primary type is set"
        if not m.primary_interactions: return "no interactions are set"
        if not m.primary_injection_distributions: return "no distributions are set"
        if sorted(m.secondary_interactions) != sorted(m.secondary_injection_distributions): return "the secondary types do not match"
    def verify(b, what):
        m = b.m
        for n in PROPS:
            got, want = getattr(b.i, n), getattr(m, n)
            if n == "seed" and want is None: m.seed = want = got       # a seed may be chosen at any time before the first event, then it stays
            if n == "stopping_condition" and want is None: continue
            w.check(norm(got) == norm(want), "wrong-report", f"after {what} the wrapper reports {n} = {norm(got)}, it was given {norm(want)}")
        w.check(b.i.injected_events == m.count, "wrong-count", f"after {what} the wrapper reports {b.i.injected_events} injected events, {m.count} were generated")
    def new():
        b = Box(); names = [n for n in PROPS if w.choose(25)]; m = Model(number_of_events=0, detector_model=None, seed=None, primary_type=None, primary_interactions=[], primary_injection_distributions=[], secondary_interactions={}, secondary_injection_distributions={}, stopping_condition=None, live=False, count=0, att=0, pos=0)
        kw = {}
        for n in names:
            v = value(n, m if n != "secondary_interactions" else None); kw[n] = v; setattr(m, n, v)
        ok, b.i = do("construct", lambda: Inj(**kw)); b.m = m
        if not ok: return
        boxes.append(b); every.append(b); verify(b, "construction")
    def generate(b):
        m = b.m; why = unready(m) if not m.live else None
        if not why and m.live and m.att >= m.number_of_events: why = "all events were attempted"
        ok, ev = do("generate_event", b.i.generate_event, why)
        if not ok: lost(b); return
        if m.seed is None: m.seed = b.i.seed
        if not m.live: m.live, m.pos = True, 0
        m.count += 1; m.att += 1; m.pos = m.pos + 1 if m.pos is not None else None
        want = ("event", m.count, m.seed, ev[3] if m.pos is None else m.pos, inj_key(m))
        if m.pos is None: m.pos = ev[3]
        if m.stopping_condition is None: want = want[:4] + (want[4][:4] + (ev[4][4],),)
        w.check(ev[1:4] == want[1:4], "wrong-stream", f"event {ev[1]} was drawn from seed {ev[2]} at place {ev[3]}, expected event {want[1]} from seed {want[2]} at place {want[3]}")
        w.check(ev[4] == want[4], "wrong-configuration", f"the event was generated with {ev[4]}, the wrapper was given {want[4]}"); w.trivial = False; w.probe("generated")
    def setter(b):
        m = b.m; n = w.pick(PROPS); v = value(n, m); why = None
        if n == "number_of_events" and m.live: why = "the injector is in use"
        if m.live and n.startswith("secondary") and sorted(v) != sorted(m.secondary_interactions): why = "it changes the secondary types of an injector in use"
        ok, _ = do("set " + n, lambda: setattr(b.i, n, v), why)
        if ok:
            setattr(m, n, v); w.probe("set-live" if m.live else "set-new")
            if n == "seed" and m.live: m.pos = 0
    def files(b):
        m = b.m; fn = os.path.join(w.root, w.pick(["x", "y"]))
        if w.choose(2):
            why = None if m.live else unready(m)
            def f(): b.i.save(fn)
            ok, _ = do("save", f, why)
            if ok:
                if not m.live: m.live, m.pos = True, 0; m.seed = b.i.seed if m.seed is None else m.seed
                saved[fn] = m.copy(); w.probe("saved")
            else: lost(b)
        else:
            why = None if fn in saved else "the file does not exist"
            if not m.live and unready(m) and w.choose(2): return
            ok, _ = do("load", lambda: b.i.load(fn), why)
            if ok:
                s = saved[fn]; keep = (m.seed, m.stopping_condition, m.pos, m.live); b.m = n = s.copy(); n.seed, n.stopping_condition, n.pos = keep[:3]; n.live = True
                if not keep[3]: n.pos = 0
                if n.seed is None: n.seed = b.i.seed
                w.probe("loaded")
    def lost(b):
        """a call failed: if it had created the compiled object before, the wrapper may or may not keep it"""
        if not b.m.live and e.born: boxes.remove(b)
    def duplicate(b):
        m = b.m; why = None if m.live else unready(m)
        ok, st = do("__getstate__", b.i.__getstate__, why)
        if not ok: lost(b); return
        if not m.live: m.live, m.pos = True, 0; m.seed = b.i.seed if m.seed is None else m.seed
        c = Box(); c.m = m.copy(); c.m.pos = None; c.i = Inj.__new__(Inj)
        ok, _ = do("__setstate__", lambda: c.i.__setstate__(st))
        if ok: verify(c, "unpickling"); boxes.append(c); every.append(c); w.probe("unpickled")
    saved = {}; wts = []
    WP = ["injectors", "detector_model", "primary_type", "primary_interactions", "primary_physical_distributions", "secondary_interactions", "secondary_physical_distributions"]
    def wvalue(n):
        if n == "injectors":
            l = [b.i for b in boxes if w.choose(2)]; return l + ([comp] if w.choose(3) == 1 else [])
        if n in ("primary_physical_distributions",): return dists(WeightableDistribution)
        if n == "secondary_physical_distributions": return {t: dists(WeightableDistribution) for t in types_()}
        return value(n)
    def mod_of(i): return next(b for b in every if b.i is i).m
    def ikey(i): return i.key()[:4] + (i.count,) if isinstance(i, CInjector) else inj_key(mod_of(i))[:4] + (mod_of(i).count,)
    def ready_injs(l): return all(isinstance(i, CInjector) or mod_of(i).live for i in l)
    def wexpect(m): return (tuple(ikey(i) for i in m.injectors), repr(m.detector_model), (int(m.primary_type), coll_key(m.primary_type, m.primary_interactions), keys(m.primary_physical_distributions)), tuple((int(t), coll_key(t, m.secondary_interactions[t]), keys(m.secondary_physical_distributions.get(t, []))) for t in sorted(m.secondary_interactions)))
    def weighter():
        if not wts or (len(wts) < 2 and w.choose(4) == 1):
            kw = {}; m = Model(injectors=None, detector_model=None, primary_type=None, primary_interactions=[], primary_physical_distributions=[], secondary_interactions={}, secondary_physical_distributions={}, live=False, loaded=False)
            for n in WP:
                if w.choose(25): kw[n] = wvalue(n); setattr(m, n, kw[n])
            why = "an injector is not initialised" if m.injectors is not None and not ready_injs(m.injectors) else None
            ok, i = do("construct weighter", lambda: Wt(**kw), why)
            if ok: b = Box(); b.i, b.m = i, m; wts.append(b)
            return
        b = w.pick(wts); m = b.m; k = w.choose(6) if w.choose(4) or not wsaved else 5 if w.choose(3) or not wsaved else 5
        if k == 0 or k == 1:
            n = w.pick(WP); bad = w.choose(5) == 1; v = w.pick([3, "x", [4], {1: 2}]) if bad else wvalue(n)
            why = "the weighter is in use" if m.live else "the value has the wrong type" if bad else "an injector is not initialised" if n == "injectors" and not ready_injs(v) else None
            ok, _ = do("set weighter " + n, lambda: setattr(b.i, n, v), why)
            if ok: setattr(m, n, v)
        elif k == 5:
            fn = os.path.join(w.root, w.pick(["wx", "wy"])); why = None if fn in wsaved else "the file does not exist"
            if m.injectors is not None and not m.live and not ready_injs(m.injectors): return
            ok, _ = do("load weighter", lambda: b.i.load(fn), why)
            if ok:
                ids, rest = wsaved[fn]; m.live = m.loaded = True; m.rest, m.ids = rest, None if m.injectors else ids; w.probe("weighter-loaded")
        else:
            why = None
            if not m.live:
                for n, t in (("injectors", None), ("detector_model", None), ("primary_type", None), ("primary_interactions", []), ("primary_physical_distributions", [])):
                    if getattr(m, n) == t: why = n + " is not set"
            if not m.live and not why: m.rest, m.ids = wexpect(m)[1:], None
            key = None if why else (tuple(ikey(i) for i in m.injectors) if m.ids is None else m.ids,) + m.rest
            fn = os.path.join(w.root, w.pick(["wx", "wy"])); t = Tree(nk()); j = w.choose(2)
            name, f = [("event_weight", lambda: b.i.event_weight(t) if j else b.i(t)), ("interaction_probabilities", lambda: b.i.interaction_probabilities(t, j)), ("save weighter", lambda: b.i.save(fn))][k - 2 if k < 5 else 0] if w.choose(2) else ("survival_probabilities", lambda: b.i.survival_probabilities(t, j))
            ok, r = do(name, f, why)
            if not ok:
                if not why: wts.remove(b)     # it may or may not have been initialised before the failure
                return
            m.live = True; w.trivial = False; w.probe("weighted")
            if name == "save weighter": wsaved[fn] = (key[0], key[1:]); return
            if name == "event_weight": w.check(r == ("weight", repr(t), key), "wrong-weighter", f"the weight came from {r[2]}, the weighter was given {key}")
            else: w.check(list(r) == [(name.split("_")[0], repr(t), j), key], "wrong-weighter", f"{name} of {t!r}, injector {j} gave {r}, expected {key}")
        for n in WP:
            if m.loaded: break
            if n != "injectors": w.check(norm(getattr(b.i, n)) == norm(getattr(m, n)), "wrong-report", f"the weighter reports {n} = {norm(getattr(b.i, n))}, it was given {norm(getattr(m, n))}")
    wsaved = {}
    comp = CInjector(5, DetectorModel("c"), PrimaryProcess(ParticleType.NuMu, Collection(ParticleType.NuMu, [CrossSection("c")])), [], Random(5))
    new()
    for _ in range(4 + w.choose(24)):
        if not boxes: new(); continue
        b = w.pick(boxes); k = w.weighted([6, 6, 3, 2, 1, 1, 9, 1])
        if k == 0: generate(b)
        elif k == 1: setter(b)
        elif k == 2: files(b)
        elif k == 3: duplicate(b)
        elif k == 4:
            ok, _ = do("reset_injected_events", b.i.reset_injected_events, faults=False)
            if b.m.live: b.m.count = b.m.att = 0
        elif k == 5:
            why = None if b.m.live else unready(b.m); ok, r = do("new_record", b.i.new_record, why, faults=False)
            if ok:
                if not b.m.live: b.m.live, b.m.pos = True, 0
                w.check(r == ("record", int(b.m.primary_type)), "wrong-record", f"a new record has {r}, the primary is {b.m.primary_type}")
        elif k == 6: weighter()
        elif len(boxes) < 3: new()
        for x in boxes: verify(x, "the last call")
S = {"wrapper": sc_wrapper}
for f in S.values(): f.setup = load
if __name__ == "__main__": simpy.drive(S)
