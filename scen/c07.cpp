// C07: saved injectors and weighters resume.  C08: truthful counters.  C09: event structure.  C18: event weights.
#include "components.h"
#include "SIREN/injection/WeightingUtils.h"
#include <fstream>
#include "SIREN/dataclasses/InteractionTree.h"
#include "SIREN/injection/Injector.h"
#define SIREN_Weighter_TCC // not inline: the definitions are those compiled with Weighter.cxx
#include "SIREN/injection/Weighter.h"
#include "SIREN/utilities/Errors.h"
namespace {
using namespace comp;
typedef dataclasses::InteractionTree Tree; typedef std::shared_ptr<dataclasses::InteractionTreeDatum> Datum;
typedef std::shared_ptr<utilities::SIREN_random> Rnd;
// ---- a seeded experiment; building it twice from the same seed gives two independent equal ones -----
struct Exp {
  std::string name; std::shared_ptr<detector::DetectorModel> det; std::shared_ptr<injection::PrimaryInjectionProcess> prim; std::vector<std::shared_ptr<injection::SecondaryInjectionProcess>> sec;
  std::shared_ptr<interactions::InteractionCollection> in; std::vector<std::shared_ptr<interactions::InteractionCollection>> sin; std::shared_ptr<distributions::WeightableDistribution> energy, dir; int depth = 0; bool stateful = false; double hnl = 0;
  std::shared_ptr<injection::Injector> injector(unsigned n, Rnd r) { auto i = std::make_shared<injection::Injector>(n, det, prim, sec, r); stop(*i); return i; }
  void stop(injection::Injector& i) { int d = depth; i.SetStoppingCondition([d](Tree const& t, Datum p, size_t) { return p->depth(t) >= d; }); } // interactions below the root are followed d levels deep
};
struct Where { int kind = -1, vertex = -1; }; // fixed parts of an experiment
const char* VN[] = {"cylinder", "sphere", "point source", "physical", "bounded", "range", "decay range", "column depth", "fixed target"};
Exp experiment(uint64_t seed, uint64_t vseed, Where w = Where(), bool flux2d = true) { // vseed: the distributions (several injectors over one detector)
  S s(seed), v(vseed); Exp e; e.det = detmodel(s, 3); e.hnl = uni(s, 0.02, 0.3); double coupling = mag(s, 1e-8, 1e-5); int kind = w.kind >= 0 ? w.kind : (int)s.below(4); PT p = PT::NuMu; e.depth = (int)s.below(4);
  auto dip = [&] { return std::make_shared<interactions::HNLDipoleDecay>(e.hnl, std::vector<double>{0, coupling, coin(s) ? 0 : coupling}, coin(s) ? interactions::HNLDipoleDecay::ChiralNature::Majorana : interactions::HNLDipoleDecay::ChiralNature::Dirac); };
  auto sec = [&](PT t, std::shared_ptr<interactions::InteractionCollection> c) { auto q = std::make_shared<injection::SecondaryInjectionProcess>(t, c); q->AddSecondaryInjectionDistribution(secondarydist(v)); e.sec.push_back(q); e.sin.push_back(c); };
  bool chain = coin(s, 0.4); double elo = 0.5, ehi = 150;
  if(kind == 0) { e.name = "neutrino scattering"; e.in = nucoll(); if(chain) sec(PT::NuMu, nucoll()); }
  else if(kind == 1) { e.name = "dipole upscattering"; bool inv = coin(s); double sc = mag(s, 1e-26, 1e-16) * (inv ? 2.5e27 : 1); /* interaction lengths from a metre up */ auto x = std::make_shared<interactions::HNLDipoleFromTable>(e.hnl, coupling, coin(s) ? interactions::HNLDipoleFromTable::Conserving : interactions::HNLDipoleFromTable::Flipping, coin(s, 0.7), inv, coin(s), std::set<PT>{PT::NuMu, PT::NuE}); int n; const int* c = nuclei(n); std::vector<PT> t{PT::HNucleus}; for(int i = 1; i < n; ++i) t.push_back((PT)c[i]); for(auto q : t) { x->AddTotalCrossSection(q, table1(s, sc)); x->AddDifferentialCrossSection(q, table2(s, sc)); }
    e.in = std::make_shared<interactions::InteractionCollection>(PT::NuMu, std::vector<std::shared_ptr<interactions::CrossSection>>{x}); sec(PT::N4, std::make_shared<interactions::InteractionCollection>(PT::N4, std::vector<std::shared_ptr<interactions::Decay>>{dip()})); if(chain) sec(PT::NuMu, nucoll()); }
  else { e.name = kind == 2 ? "decay in flight" : "decay and mixing"; p = PT::N4; std::vector<std::shared_ptr<interactions::Decay>> d{dip()}; if(kind == 3) d.push_back(std::make_shared<interactions::HNLDecay>(e.hnl, std::vector<double>{1e-3, 1e-3, 0}, interactions::HNLDecay::ChiralNature::Majorana)); e.in = std::make_shared<interactions::InteractionCollection>(PT::N4, d); if(chain) sec(PT::NuMu, nucoll()); }
  e.prim = std::make_shared<injection::PrimaryInjectionProcess>(p, e.in); bool flux = flux2d && coin(v, 0.1);
  e.prim->AddPrimaryInjectionDistribution(std::make_shared<distributions::PrimaryMass>(p == PT::N4 ? e.hnl : 0)); if(coin(s, 0.8)) e.prim->AddPrimaryInjectionDistribution(std::make_shared<distributions::PrimaryNeutrinoHelicityDistribution>());
  if(flux) { auto d = otherdist(v, "", 2); e.energy = d; e.prim->AddPrimaryInjectionDistribution(d); e.stateful = true; }
  else { std::shared_ptr<distributions::PrimaryInjectionDistribution> d; int k = (int)v.below(4); if(k == 0) { double a = elo * mag(v, 1, 10); d = std::make_shared<distributions::PowerLaw>(coin(v) ? 1 : uni(v, -1, 3), a, a + mag(v, 1, ehi - a)); } else if(k == 1) d = std::make_shared<distributions::Monoenergetic>(uni(v, elo, ehi)); else if(k == 2) d = energydist(v, 2); else { double a = uni(v, 0.5, 1), b = a + mag(v, 5, 50); d = std::make_shared<distributions::ModifiedMoyalPlusExponentialEnergyDistribution>(a, b, uni(v, 1, 4), uni(v, 0.3, 2), mag(v, 0.1, 5), uni(v, 1, 5), mag(v, 0.01, 1), coin(v)); }
    e.energy = d; e.prim->AddPrimaryInjectionDistribution(d); auto q = directiondist(v); e.dir = q; e.prim->AddPrimaryInjectionDistribution(q); }
  int vx = w.vertex >= 0 ? w.vertex : (int)v.below(9); if(p == PT::N4 && (vx == 5 || vx == 7)) vx = 6; if(p != PT::N4 && vx == 6) vx = 5;
  if(vx == 8) { auto pl = place(v, 5); double r = uni(v, 1, 10); geometry::Cylinder c(pl, r, 0, uni(v, 1, 10)); std::shared_ptr<geometry::Geometry> g = solid(v, 30); e.prim->AddPrimaryInjectionDistribution(std::make_shared<distributions::FixedTargetAreaDistribution>(c)); e.prim->AddPrimaryInjectionDistribution(coin(v) ? std::make_shared<distributions::FixedTargetPositionDistribution>(c, g) : std::make_shared<distributions::FixedTargetPositionDistribution>(c, mag(v, 1, 100))); }
  else e.prim->AddPrimaryInjectionDistribution(vertexdist(v, vx));
  e.name += std::string(", ") + VN[vx] + " vertices"; return e;
}
void put(Out& o, Tree const& t) { // everything but the particle identifiers
  o.num((double)t.header.event_number); for(auto& p : t.header.provenance) { o.str(p.first); o.str(p.second); } o.num((double)t.header.weights.size()); o.num((double)t.tree.size());
  for(auto const& d : t.tree) { o.num(d->is_root() ? -1 : (double)d->parent_index); o.num((double)d->depth(t)); o.num((double)d->daughter_indices.size()); comp::put(o, d->record); }
}
// a restored component may differ by rounding (directions and rotations are normalised again), which square roots at the edge of phase space and root finding in thin matter amplify
double scale(Tree const& t) { double m = 1; for(auto const& d : t.tree) m = std::max(m, d->record.primary_momentum[0] + d->record.target_mass); return m; }
bool alike(Ans const& a, Ans const& b, double s) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); ++i) if(!(near(a[i], b[i]) || std::fabs(a[i].v - b[i].v) <= 1e-4 * (s + std::min(a[i].s, b[i].s)))) return false; return true; }
// one call of GenerateEvent and what came of it
struct Ev { int kind = 0; Tree t; std::string what; Ans a; }; // 0 event, 1 failed attempt, 2 raised
Ev generate(injection::Injector& i) {
  Ev e; sim::StepGuard g(6000000000ull, "generating an event");
  try { e.t = i.GenerateEvent(); e.kind = e.t.tree.empty() ? 1 : 0; } catch(std::exception const& x) { e.kind = 2; e.what = x.what(); }
  Out o; o.num(e.kind); if(e.kind == 0) put(o, e.t); o.num(i.InjectedEvents()); o.num(i.InjectionAttempts()); o.num(i.EventsToInject()); e.a = o.a; return e;
}
// ---- C07 -------------------------------------------------------------------------------
struct Weighted { std::shared_ptr<injection::Weighter> w; };
std::shared_ptr<injection::PhysicalProcess> physical(Exp& e, S& s) {
  auto p = std::make_shared<injection::PhysicalProcess>(e.prim->GetPrimaryType(), e.in);
  p->AddPhysicalDistribution(coin(s, 0.5) || e.stateful ? e.energy : std::make_shared<distributions::PowerLaw>(uni(s, 0, 2), 0.3, 300)); if(e.dir && coin(s, 0.7)) p->AddPhysicalDistribution(e.dir); if(coin(s, 0.4)) p->AddPhysicalDistribution(std::make_shared<distributions::NormalizationConstant>(mag(s, 1e-3, 1e3)));
  return p;
}
std::vector<std::shared_ptr<injection::PhysicalProcess>> physical_sec(Exp& e) { std::vector<std::shared_ptr<injection::PhysicalProcess>> r; for(size_t i = 0; i < e.sec.size(); ++i) r.push_back(std::make_shared<injection::PhysicalProcess>(e.sec[i]->GetPrimaryType(), e.sin[i])); return r; }
// saving over a disk that may fail; returns true if there is an intact file
template<class Save> bool save(const char* what, std::string const& path, bool faulty, Save f) {
  sim::disk_reset(); sim::Disk& d = sim::disk(); f(); size_t size = sim::slurp(path).size(); SIM_CHECK(size > 0, "nothing-saved", "saving %s wrote nothing", what);
  if(sim::chance(0.5)) { d.p_short_write = 0.3; d.p_short_read = 0.3; } if(sim::chance(0.3)) { d.p_eintr_write = 0.1; d.p_eintr_read = 0.1; }
  if(faulty) { int k = (int)sim::choose_w({1, 1, 4}); if(k == 0) d.fail_close = true; else if(k == 1) d.fail_open_errno = sim::chance(0.5) ? 28 : 13; else { d.fail_write_at = (int64_t)sim::choose((uint32_t)size); d.fail_write_errno = sim::chance(0.5) ? 28 : 5; } }
  d.armed = true; bool raised = false; try { f(); } catch(std::exception const&) { raised = true; } d.armed = false;
  bool hit = d.write_failed || d.close_failed || d.open_failed; sim::log("saved %s%s%s", what, hit ? ", disk failed" : "", raised ? ", raised" : "");
  if(hit) { SIM_CHECK(raised, "save-error-hidden", "saving %s to a disk that failed returned normally", what); sim::probe("failed save reported"); return false; }
  SIM_CHECK(!raised, "save-raised", "saving %s raised although the disk worked", what); return true;
}
// loading from a file that may be missing, cut or unreadable; returns true if it must have worked
template<class Load> bool load(const char* what, std::string const& path, bool damage, Load f) {
  bool bad = false; sim::disk_reset(); sim::Disk& d = sim::disk(); std::string full = sim::slurp(path);
  if(sim::chance(0.5)) d.p_short_read = 0.3; if(sim::chance(0.3)) d.p_eintr_read = 0.1;
  if(damage) switch(sim::choose(4)) { case 0: ::remove(path.c_str()); bad = true; break; case 1: { size_t keep = sim::chance(0.3) ? full.size() - 1 - sim::choose(std::min<uint32_t>(20, (uint32_t)full.size() - 1)) : sim::choose((uint32_t)full.size()); sim::spit(path, full.substr(0, keep)); bad = true; break; } case 2: d.fail_open_errno = 13; bad = true; break; default: d.fail_read_at = (int64_t)sim::choose((uint32_t)full.size()); }
  d.armed = true; bool raised = false; sim::alloc_cap(256u << 20); try { f(); } catch(std::exception const&) { raised = true; } sim::alloc_cap(0); d.armed = false; bad = bad || d.read_failed;
  sim::log("restored %s%s%s", what, bad ? ", file damaged" : "", raised ? ", raised" : "");
  if(bad) { SIM_CHECK(raised, "damaged-restore-accepted", "restoring %s from a missing, cut off or unreadable file returned normally", what); sim::probe("damaged file reported"); sim::spit(path, full); return false; }
  SIM_CHECK(!raised, "restore-raised", "restoring %s from an intact file raised", what); return true;
}
void resume() {
  uint64_t es = sim::u64(), vs = sim::u64(); Exp e = experiment(es, vs); sim::context("%s", e.name.c_str()); sim::probe(e.name.c_str()); sim::log("%s", e.name.c_str());
  unsigned n = 2 + sim::choose(6); auto rnd = std::make_shared<utilities::SIREN_random>(sim::u64() | 1); auto inj = e.injector(n, rnd); std::vector<Tree> events;
  unsigned before = sim::choose(n + 1); for(unsigned k = 0; k < before; ++k) { Ev x = generate(*inj); sim::log("event %u: %s", k, x.kind == 0 ? "generated" : x.kind == 1 ? "failed" : "raised"); if(x.kind == 0) events.push_back(x.t); }
  std::string path = sim::scratch() + "/inj.bin"; std::shared_ptr<injection::Injector> back; Rnd rnd2 = std::make_shared<utilities::SIREN_random>(*rnd);
  int rounds = 1 + (int)sim::choose_w({5, 2}); bool ok = true; auto cur = inj;
  for(int r = 0; r < rounds && ok; ++r) {
    bool wf = sim::chance(0.25); if(!save("an injector", path, wf, [&] { cur->SaveInjector(path); })) { SIM_CHECK(save("an injector", path, false, [&] { cur->SaveInjector(path); }), "save-raised", "saving an injector again after a disk error failed"); }
    bool dmg = sim::chance(0.25); int how = (int)sim::choose(3); std::shared_ptr<injection::Injector> got;
    Exp other; if(how == 2) other = experiment(sim::u64(), sim::u64());
    auto f = [&] { if(how == 2) { got = other.injector(1, rnd2); got->LoadInjector(path); } else got = std::make_shared<injection::Injector>(1 + sim::choose(3), path, rnd2); };
    if(!load("an injector", path, dmg, f)) { got.reset(); load("an injector", path, false, f); }
    e.stop(*got); back = got; cur = got; if(how == 2) { sim::probe("restored over another injector"); back->SetRandom(rnd2); }
  }
  sim::disk_reset();
  SIM_CHECK(back->InjectedEvents() == inj->InjectedEvents() && back->InjectionAttempts() == inj->InjectionAttempts() && back->EventsToInject() == inj->EventsToInject(), "counters-lost", "a restored injector reports %u events in %u attempts of %u instead of %u in %u of %u", back->InjectedEvents(), back->InjectionAttempts(), back->EventsToInject(), inj->InjectedEvents(), inj->InjectionAttempts(), inj->EventsToInject());
  SIM_CHECK(back->GetSecondaryProcesses().size() == inj->GetSecondaryProcesses().size(), "processes-changed", "a restored injector has %zu secondary processes instead of %zu", back->GetSecondaryProcesses().size(), inj->GetSecondaryProcesses().size());
  bool first = sim::chance(0.5); std::vector<Ev> a, b; auto one = [&](injection::Injector& i, std::vector<Ev>& o) { for(unsigned k = before; k < n + 1; ++k) o.push_back(generate(i)); };
  if(first) { one(*inj, a); one(*back, b); } else { one(*back, b); one(*inj, a); }
  for(size_t k = 0; k < a.size(); ++k) { SIM_CHECK(a[k].kind == b[k].kind && a[k].what == b[k].what, "resumed-differently", "after a restore attempt %zu %s instead of %s (%s)", before + k, b[k].kind == 0 ? "succeeded" : b[k].kind == 1 ? "failed" : b[k].what.c_str(), a[k].kind == 0 ? "succeeding" : a[k].kind == 1 ? "failing" : a[k].what.c_str(), e.name.c_str()); SIM_CHECK(alike(b[k].a, a[k].a, scale(a[k].t)), "resumed-differently", "after a restore attempt %zu produced another event: %s", before + k, diff(b[k].a, a[k].a).c_str()); sim::state(hash(a[k].a)); if(a[k].kind == 0) events.push_back(a[k].t); }
  if(events.empty()) { sim::probe("no event"); return; }
  // the weighter
  S ps(sim::u64()); auto w = std::make_shared<injection::Weighter>(std::vector<std::shared_ptr<injection::Injector>>{inj}, e.det, physical(e, ps), physical_sec(e)); std::string wp = sim::scratch() + "/w", wf = wp + ".siren_weighter";
  bool fl = sim::chance(0.25); if(!save("a weighter", wf, fl, [&] { w->SaveWeighter(wp); })) save("a weighter", wf, false, [&] { w->SaveWeighter(wp); });
  std::shared_ptr<injection::Weighter> q; bool own = sim::chance(0.5); std::shared_ptr<injection::Weighter> used; Exp oe; if(sim::chance(0.3)) { oe = experiment(sim::chance(0.5) ? es : sim::u64(), sim::u64()); used = std::make_shared<injection::Weighter>(std::vector<std::shared_ptr<injection::Injector>>(1 + sim::choose(2), oe.injector(1, rnd2)), oe.det, physical(oe, ps), physical_sec(oe)); sim::probe("restored over another weighter"); }
  auto f = [&] { if(used) { used->LoadWeighter(wp); q = used; } else q = std::make_shared<injection::Weighter>(own ? std::vector<std::shared_ptr<injection::Injector>>{inj} : std::vector<std::shared_ptr<injection::Injector>>{}, wp); };
  bool dmg = sim::chance(0.25); if(!load("a weighter", wf, dmg, f)) load("a weighter", wf, false, f); sim::disk_reset();
  for(auto& t : events) { double x = w->EventWeight(t), y = q->EventWeight(t); SIM_CHECK(near(V(x), V(y)) || std::max(std::fabs(x), std::fabs(y)) < 1e-250 || std::fabs(x - y) <= 1e-7 * std::fabs(x) * (1 + std::fabs(std::log(std::fabs(x) + 1e-300))), "weight-changed", "a restored weighter gives weight %.17g instead of %.17g (%s)", y, x, e.name.c_str()); }
  sim::probe("weights compared", events.size());
}
sim::Reg r1("resume", resume, "injectors and weighters saved and restored at seeded points");
// ---- C08 ---------------------------------------------------------------------------------
void counters() {
  uint64_t es = sim::u64(), vs = sim::u64(); Exp e = experiment(es, vs); sim::context("%s", e.name.c_str()); sim::probe(e.name.c_str()); sim::log("%s", e.name.c_str());
  unsigned n = 1 + sim::choose(8); auto rnd = std::make_shared<utilities::SIREN_random>(sim::u64() | 1); auto inj = e.injector(n, rnd); unsigned att = 0, ok = 0; bool extremes = sim::chance(0.3);
  int calls = (int)n + (int)sim::choose(4);
  for(int c = 0; c < calls; ++c) {
    int what = (int)sim::choose_w({4, 4, 2, 1, 1}); // nothing, a sampling failure, another error, an allocation, an error in the stopping condition
    uint64_t at = sim::chance(0.5) ? sim::choose(12) : sim::choose(60), cnt = 0; bool fired = false; std::string path = sim::scratch() + "/i.bin";
    if(sim::chance(0.1)) { inj->SaveInjector(path); auto q = std::make_shared<injection::Injector>(1, path, rnd); e.stop(*q); inj = q; sim::log("saved and restored"); }
    auto before = std::make_shared<utilities::SIREN_random>(*rnd);
    if(what == 1 || what == 2) sim::rng_hook([&] { if(!fired && cnt++ == at) { fired = true; sim::fault(what == 1 ? "sampling failure" : "error while sampling"); if(what == 1) throw utilities::InjectionFailure("injected"); throw std::runtime_error("injected"); } });
    if(what == 4) { int d = e.depth; inj->SetStoppingCondition([&, d](Tree const& t, Datum p, size_t) { if(!fired && cnt++ == at % 3) { fired = true; sim::fault("error in the stopping condition"); throw std::runtime_error("injected"); } return p->depth(t) >= d; }); }
    if(extremes && what != 0) sim::rng_extremes(0.05); if(what == 3) sim::alloc_fail_at((int64_t)sim::log_uniform(20000));
    Ev x; bool bad = false; { sim::StepGuard g(6000000000ull, "generating an event"); try { x.t = inj->GenerateEvent(); x.kind = x.t.tree.empty() ? 1 : 0; } catch(std::bad_alloc const&) { bad = true; } catch(std::exception const& y) { sim::alloc_disarm(); x.kind = 2; x.what = y.what(); } sim::alloc_disarm(); if(bad) { x.kind = 2; x.what = "out of memory"; sim::fault("failed allocation"); } }
    sim::rng_hook(nullptr); sim::rng_extremes(0); if(what == 4) e.stop(*inj); bool af = sim::alloc_failed();
    sim::log("call %d: %s%s", c, x.kind == 0 ? "event" : x.kind == 1 ? "failed attempt" : "raised", fired ? ", fault" : "");
    if(att >= n) { SIM_CHECK(x.kind == 2, "limit-exceeded", "an injector asked for %u events accepted attempt %d", n, c); sim::probe("call beyond the limit"); }
    else { ++att; if(x.kind == 0) ++ok; if(fired && what == 1) SIM_CHECK(x.kind == 1, "failure-not-reported", "a sampling failure did not lead to an empty event but to %s", x.kind == 0 ? "an event" : x.what.c_str()); if(fired && what != 1) SIM_CHECK(x.kind == 2, "error-swallowed", "an error raised while sampling did not reach the caller (%s)", x.kind == 0 ? "event" : "empty event"); }
    SIM_CHECK(inj->InjectionAttempts() == att, "attempts", "after %d calls, of which %u were accepted, the injector reports %u attempts", c + 1, att, inj->InjectionAttempts());
    SIM_CHECK(inj->InjectedEvents() == ok, "injected", "after %u events were returned the injector reports %u", ok, inj->InjectedEvents()); SIM_CHECK(inj->EventsToInject() == n, "requested", "the injector reports %u requested events instead of %u", inj->EventsToInject(), n);
    if(x.kind == 0) SIM_CHECK(x.t.header.event_number == ok - 1, "event-number", "successful event %u carries number %llu", ok - 1, (unsigned long long)x.t.header.event_number);
    if(x.kind == 0 && !fired && !(extremes && what) && !af && !e.stateful && sim::chance(0.5)) { // an injector without that history generates the same event from the same random state
      Exp f = experiment(es, vs); auto fresh = f.injector(1, before); Ev y; { sim::StepGuard g(6000000000ull, "generating an event"); try { y.t = fresh->GenerateEvent(); } catch(std::exception const& z) { sim::fail("history-matters", "after %u attempts an event is generated that an unused injector cannot generate: %s", att, z.what()); } }
      SIM_CHECK(!y.t.tree.empty(), "history-matters", "after %u attempts an event is generated that an unused injector fails to generate", att); y.t.header.event_number = x.t.header.event_number; Out p, q; put(p, x.t); put(q, y.t); SIM_CHECK(alike(p.a, q.a, scale(x.t)), "history-matters", "after %u attempts, some of them failed, the next event differs from that of an unused injector: %s", att, diff(p.a, q.a).c_str()); sim::probe("compared with an unused injector");
    }
    sim::state(sim::mix(att, ok)); if(x.kind == 0) { Out o; put(o, x.t); sim::state(hash(o.a)); }
  }
}
sim::Reg r2("counters", counters, "generation histories with failures at seeded steps");
// ---- C09, event structure --------------------------------------------------------------------
void events() {
  uint64_t es = sim::u64(), vs = sim::u64(); Where wh; Exp e = experiment(es, vs, wh); e.depth = (int)sim::choose(5); sim::context("%s", e.name.c_str()); sim::probe(e.name.c_str()); sim::log("%s", e.name.c_str()); const char* en = e.name.c_str();
  unsigned n = 1 + sim::choose(5); auto rnd = std::make_shared<utilities::SIREN_random>(sim::u64() | 1); auto inj = e.injector(n, rnd); bool ext = sim::chance(0.3);
  for(unsigned k = 0; k < n; ++k) {
    if(ext) sim::rng_extremes(0.03); Ev x = generate(*inj); sim::rng_extremes(0); sim::log("%s", x.kind == 0 ? "event" : x.kind == 1 ? "failed" : "raised"); if(x.kind) continue;
    auto const& t = x.t.tree; std::set<std::string> ids; sim::probe("interactions", t.size());
    std::map<const void*, size_t> pos;
    for(size_t i = 0; i < t.size(); ++i) {
      auto const& d = *t[i]; auto const& r = d.record; pos[t[i].get()] = i; size_t m = r.signature.secondary_types.size();
      SIM_CHECK(d.is_root() == (i == 0), "tree", "%s: interaction %zu of an event %s", en, i, i ? "has no parent" : "has a parent");
      SIM_CHECK(r.secondary_ids.size() == m && r.secondary_masses.size() == m && r.secondary_momenta.size() == m && r.secondary_helicities.size() == m && r.secondary_times.size() == m, "wrong-counts", "%s: an interaction does not list one entry per secondary", en);
      for(double z : r.interaction_vertex) SIM_CHECK(std::isfinite(z), "not-finite", "%s: an interaction vertex is not finite", en); SIM_CHECK(std::isfinite(r.interaction_time) && r.interaction_time >= r.primary_initial_time, "time", "%s: an interaction at %g of a particle that starts at %g", en, r.interaction_time, r.primary_initial_time);
      SIM_CHECK((bool)r.primary_id, "no-identifier", "%s: the primary of interaction %zu has no identifier", en, i);
      double len = 0, pm = 0, dot = 0; for(int c = 0; c < 3; ++c) { double dx = r.interaction_vertex[c] - r.primary_initial_position[c]; len += dx * dx; pm += r.primary_momentum[c + 1] * r.primary_momentum[c + 1]; dot += dx * r.primary_momentum[c + 1]; } len = std::sqrt(len); pm = std::sqrt(pm);
      SIM_CHECK(dot >= len * pm * (1 - 1e-6) - 1e-6 * pm, "direction", "%s: interaction %zu does not lie on the path of its primary (cosine %.9g over %g m)", en, i, dot / (len * pm), len);
      for(size_t j = 0; j < m; ++j) { auto const& P = r.secondary_momenta[j]; double p2 = P[1] * P[1] + P[2] * P[2] + P[3] * P[3], ss = r.primary_momentum[0] + r.target_mass; SIM_CHECK(std::fabs(P[0] * P[0] - p2 - r.secondary_masses[j] * r.secondary_masses[j]) <= 1e-7 * ss * ss, "off-shell", "%s: a secondary is off its mass shell", en); }
      if(i == 0) { SIM_CHECK(d.depth(x.t) == 0, "tree", "%s: the first interaction has depth %d", en, d.depth(x.t)); SIM_CHECK(r.signature.primary_type == e.prim->GetPrimaryType(), "primary", "%s: the first interaction has another primary", en); continue; }
      size_t pi = (size_t)d.parent_index; SIM_CHECK(d.parent_index >= 0 && pi < i, "tree", "%s: interaction %zu precedes its parent %d", en, i, (int)d.parent_index); auto const& q = t[pi]->record; SIM_CHECK(d.depth(x.t) == t[pi]->depth(x.t) + 1 && d.depth(x.t) <= e.depth, "tree", "%s: interaction %zu has depth %d below one of depth %d, where %d are to be followed", en, i, d.depth(x.t), t[pi]->depth(x.t), e.depth);
      size_t j = 0; for(; j < q.secondary_ids.size(); ++j) if(q.secondary_ids[j] == r.primary_id) break; SIM_CHECK(j < q.secondary_ids.size(), "not-a-daughter", "%s: interaction %zu has a primary its parent did not produce", en, i);
      char key[64]; snprintf(key, sizeof key, "%zu.%zu", pi, j); SIM_CHECK(ids.insert(key).second, "twice", "%s: one particle interacts twice", en);
      SIM_CHECK(q.signature.secondary_types[j] == r.signature.primary_type && q.secondary_masses[j] == r.primary_mass && q.secondary_momenta[j] == r.primary_momentum && q.secondary_helicities[j] == r.primary_helicity, "daughter-changed", "%s: a daughter has another type, mass, momentum or helicity than its parent recorded", en);
      SIM_CHECK(r.primary_initial_position == q.interaction_vertex, "start", "%s: a daughter does not start where its parent interacted", en);
      SIM_CHECK(r.primary_initial_time == q.interaction_time && q.secondary_times[j] == r.primary_initial_time, "start-time", "%s: a daughter starts at %g, its parent interacted at %g and recorded %g", en, r.primary_initial_time, q.interaction_time, q.secondary_times[j]);
    }
    // what was to be followed has been followed
    size_t want = 0; for(auto const& d : t) if(d->depth(x.t) < e.depth) for(auto ty : d->record.signature.secondary_types) for(auto& p : e.sec) if(p->GetPrimaryType() == ty) ++want; SIM_CHECK(t.size() == want + 1, "lost-daughter", "%s: the event has %zu interactions instead of %zu", en, t.size(), want + 1);
    sim::state(hash(x.a));
  }
}
sim::Reg r3("events", events, "structure of generated events");
// ---- C18 ---------------------------------------------------------------------------------
// within rounding of the edge of what an interaction can produce: the density of the final state vanishes here and not a hair further
bool kinematic_edge(Exp const& e, Tree const& t) {
  for(auto& d : t.tree) { auto in = d->is_root() ? e.in : nullptr; if(!in) for(auto& q : e.sec) if(q->GetPrimaryType() == d->record.signature.primary_type) in = q->GetInteractions(); if(!in) continue; if(injection::CrossSectionProbability(e.det, in, d->record) > 0) continue;
    for(size_t k = 0; k < d->record.secondary_momenta.size(); ++k) for(double h : {1e-15, -1e-15, 1e-14, -1e-14, 1e-13, -1e-13, 1e-12, -1e-12}) { auto r = d->record; for(int c = 0; c < 4; ++c) r.secondary_momenta[k][c] *= 1 + h; if(injection::CrossSectionProbability(e.det, in, r) > 0) return true; } }
  return false;
}
void weights() {
  uint64_t es = sim::u64(); int ni = 1 + (int)sim::choose_w({4, 3, 2}); S ks(es); Where wh; wh.kind = (int)ks.below(4);
  // several injectors over one detector and one set of interactions
  std::vector<Exp> xs; std::vector<std::shared_ptr<injection::Injector>> inj; std::vector<Tree> ev; std::vector<int> from; std::vector<char> edge; // edge: extreme draws put events on the boundary of what can be generated
  for(int i = 0; i < ni; ++i) { Exp e = experiment(es, i && sim::chance(0.2) ? es : sim::u64(), wh, false); if(i) { e.det = xs[0].det; auto p = std::make_shared<injection::PrimaryInjectionProcess>(e.prim->GetPrimaryType(), xs[0].in); for(auto& d : e.prim->GetPrimaryInjectionDistributions()) p->AddPrimaryInjectionDistribution(d); e.prim = p; e.in = xs[0].in; std::vector<std::shared_ptr<injection::SecondaryInjectionProcess>> sc; for(size_t k = 0; k < e.sec.size(); ++k) { auto q = std::make_shared<injection::SecondaryInjectionProcess>(e.sec[k]->GetPrimaryType(), xs[0].sin[k]); for(auto& d : e.sec[k]->GetSecondaryInjectionDistributions()) q->AddSecondaryInjectionDistribution(d); sc.push_back(q); } e.sec = sc; e.sin = xs[0].sin; } e.depth = 2;
    unsigned n = 1 + sim::choose(4); auto rnd = std::make_shared<utilities::SIREN_random>(sim::u64() | 1); auto j = e.injector(n, rnd); inj.push_back(j); sim::log("injector %d: %s", i, e.name.c_str()); sim::probe(e.name.c_str()); bool ext = sim::chance(0.2);
    for(unsigned k = 0; k < n; ++k) { if(ext) sim::rng_extremes(0.03); Ev x = generate(*j); sim::rng_extremes(0); if(x.kind == 0) { ev.push_back(x.t); from.push_back(i); edge.push_back(ext); } } xs.push_back(e); }
  if(ev.empty()) { sim::trivial(true); return; }
  sim::context("%s", xs[0].name.c_str()); uint64_t pseed = sim::u64(); auto weighter = [&](std::vector<std::shared_ptr<injection::Injector>> l) { S p(pseed); return std::make_shared<injection::Weighter>(l, xs[0].det, physical(xs[0], p), physical_sec(xs[0])); };
  auto w = weighter(inj); std::vector<double> want; auto weigh = [&](injection::Weighter const& q, Tree const& t) { sim::StepGuard g(6000000000ull, "weighting an event"); return q.EventWeight(t); };
  // a fresh weighter for each event
  for(size_t i = 0; i < ev.size(); ++i) { auto q = weighter(inj); double x = weigh(*q, ev[i]); want.push_back(x); if(x > 0 && std::isinf(x) && !edge[i] && kinematic_edge(xs[from[i]], ev[i])) { edge[i] = 1; sim::probe("kinematic edge"); } SIM_CHECK(x >= 0 && (edge[i] || std::isfinite(x)), "bad-weight", "an event of %s has weight %g%s", xs[from[i]].name.c_str(), x, ni > 1 ? " with several injectors" : ""); sim::state(sim::hash_bytes(&x, 8)); if(x > 0) sim::probe("positive weight"); }
  auto eq = [](double a, double b) { return a == b || (std::isinf(a) && b > 1e200) || std::fabs(a - b) <= 1e-9 * std::fabs(b); };
  // one weighter, in any order, repeatedly
  for(int k = 0; k < (int)ev.size() * 2; ++k) { size_t i = sim::choose((uint32_t)ev.size()); double x = weigh(*w, ev[i]); SIM_CHECK(x == want[i], "history-matters", "the same event weighs %.17g after other events and %.17g alone (%s)", x, want[i], xs[from[i]].name.c_str()); }
  // threads
  if(sim::chance(0.5)) { int nt = 2 + (int)sim::choose(2); std::vector<std::vector<std::pair<size_t, double>>> got(nt); std::vector<std::function<void()>> b; std::vector<std::vector<size_t>> todo(nt); for(auto& q : todo) for(int k = 0; k < 2; ++k) q.push_back(sim::choose((uint32_t)ev.size()));
    auto q = weighter(inj); for(int h = 0; h < nt; ++h) b.push_back([&, h] { for(size_t i : todo[h]) got[h].push_back({i, q->EventWeight(ev[i])}); });
    sim::ThreadOpts o; o.race = true; o.max_gap = 1ull << (5 + sim::choose(12)); o.step_limit = 20000000000ull; sim::run_threads(b, o); sim::probe("threads"); for(auto& g : got) for(auto& x : g) SIM_CHECK(x.second == want[x.first], "thread-matters", "an event weighs %.17g when several threads ask and %.17g alone", x.second, want[x.first]); }
  // saved and reloaded events
  if(sim::chance(0.5)) { std::vector<std::shared_ptr<Tree>> l; for(auto& t : ev) l.push_back(std::make_shared<Tree>(t)); std::string p = sim::scratch() + "/ev"; dataclasses::SaveInteractionTrees(l, p); auto m = dataclasses::LoadInteractionTrees(p); SIM_CHECK(m.size() == ev.size(), "reload", "%zu events came back instead of %zu", m.size(), ev.size()); for(size_t i = 0; i < m.size(); ++i) { double x = weigh(*w, *m[i]); SIM_CHECK(x == want[i], "reload-matters", "an event weighs %.17g after it was saved and reloaded and %.17g before", x, want[i]); } sim::probe("reloaded"); }
  // several injectors: densities add, order does not matter
  if(ni > 1) { auto l = inj; for(int i = ni - 1; i > 0; --i) std::swap(l[i], l[sim::choose(i + 1)]); auto q = weighter(l); std::vector<std::shared_ptr<injection::Weighter>> single; for(auto& j : inj) single.push_back(weighter({j}));
    for(size_t i = 0; i < ev.size(); ++i) { double x = weigh(*q, ev[i]); SIM_CHECK(eq(x, want[i]), "order-matters", "an event weighs %.17g with the injectors in another order and %.17g in the first", x, want[i]);
      double inv = 0; bool ok = true; for(auto& y : single) { double z = weigh(*y, ev[i]); if(std::isnan(z)) { sim::probe("injector without an answer"); ok = false; } inv += 1 / z; } if(ok && want[i] > 1e-250) SIM_CHECK(eq(1 / inv, want[i]), "densities-do-not-add", "an event weighs %.17g with %d injectors, their densities give %.17g", want[i], ni, 1 / inv); } sim::probe("several injectors"); }
}
sim::Reg r4("weights", weights, "weights in seeded orders, threads and injector lists");
}
