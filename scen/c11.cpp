// C11: independent tasks do not influence each other.   C12: one detector model serves concurrent readers.
#include "components.h"
#include <sys/stat.h>
#include "SIREN/detector/Path.h"
namespace {
using namespace comp;
struct Job { int kind; uint64_t build, world, ask; int times; };
struct Task { std::vector<Job> jobs; };
const int MAXANS = 64;
struct Cell { uint64_t h[8][MAXANS]; uint32_t n[8]; char name[8][8][48]; };
// A task in a world of its own; returns one hash per question round.
void perform(Task const& t, std::string const& dir, uint64_t* out, uint32_t& n, char (*names)[48], std::vector<Ans>* keep = nullptr) {
  n = 0; int j = 0;
  for(auto const& job : t.jobs) {
    S ws(job.world); World w = world(ws); S bs(job.build); Component c = make(bs, dir, job.kind);
    if(names) snprintf(names[j], 48, "%s %s", c.family.c_str(), c.name.c_str());
    for(int k = 0; k < job.times && n < MAXANS; ++k) { Ans a = c.answers(w, job.ask + k); out[n++] = hash(a); if(keep) keep->push_back(a); }
    ++j;
  }
}
void isolation() {
  if(sim::chance(0.6)) sim::env_random();
  int n = 2 + (int)sim::choose_w({6, 3, 1}); std::vector<Task> tasks(n);
  bool alike = sim::chance(0.6); int kind0 = (int)sim::choose(18); uint64_t build0 = sim::u64(); int njobs = 1 + (int)sim::choose_w({5, 2, 1});
  for(auto& t : tasks) for(int j = 0; j < njobs; ++j) {
    Job b; b.kind = alike ? (kind0 + j) % 18 : (int)sim::choose(18); b.build = alike && sim::chance(0.5) ? build0 + j : sim::u64(); b.world = sim::chance(0.5) ? build0 : sim::u64(); b.ask = sim::chance(0.3) ? build0 : sim::u64(); b.times = 1 + (int)sim::choose_w({5, 2, 1}); t.jobs.push_back(b); }
  Cell* solo = (Cell*)sim::shared_scratch(sizeof(Cell)); memset((void*)solo, 0, sizeof *solo);
  std::vector<std::string> dir; for(int i = 0; i < n; ++i) { dir.push_back(sim::scratch() + "/t" + std::to_string(i)); ::mkdir(dir.back().c_str(), 0700); }
  // every task alone, in a process that has done nothing else
  for(int i = 0; i < n; ++i) sim::forked([&, i] { sim::StepGuard g(6000000000ull, "a task running alone"); perform(tasks[i], dir[i], solo->h[i], solo->n[i], solo->name[i]); });
  for(int i = 0; i < n; ++i) { std::string s; for(int j = 0; j < njobs; ++j) s += std::string(j ? ", " : "") + solo->name[i][j]; sim::log("task %d: %s", i, s.c_str()); }
  sim::context("tasks of %s", solo->name[0][0]); sim::probe(solo->name[0][0]);
  std::vector<std::vector<uint64_t>> got(n, std::vector<uint64_t>(MAXANS)); std::vector<uint32_t> cnt(n);
  int mode = (int)sim::choose_w({3, 1, 1}); // threads, one after the other, again in the same process
  if(mode == 0) {
    std::vector<std::function<void()>> b; for(int i = 0; i < n; ++i) b.push_back([&, i] { perform(tasks[i], dir[i], got[i].data(), cnt[i], nullptr); });
    sim::ThreadOpts o; o.max_gap = 1ull << (5 + sim::choose(10)); o.step_limit = 20000000000ull; sim::run_threads(b, o); sim::probe("interleaved");
  } else {
    std::vector<int> ord; for(int i = 0; i < n; ++i) ord.push_back(i); for(int i = n - 1; i > 0; --i) std::swap(ord[i], ord[sim::choose(i + 1)]); if(mode == 2) { auto o2 = ord; ord.insert(ord.end(), o2.begin(), o2.end()); }
    sim::StepGuard g(20000000000ull, "tasks one after the other"); for(int i : ord) { if(sim::chance(0.3)) sim::env().t_sec += (int)sim::choose(2000) - 1000; sim::log("task %d runs", i); perform(tasks[i], dir[i], got[i].data(), cnt[i], nullptr); } sim::probe("in sequence");
  }
  for(int i = 0; i < n; ++i) {
    SIM_CHECK(cnt[i] == solo->n[i], "task-influenced", "task %d gave %u answers instead of %u", i, cnt[i], solo->n[i]);
    uint32_t q = 0; for(int j = 0; j < njobs; ++j) for(int k = 0; k < tasks[i].jobs[j].times && q < cnt[i]; ++k, ++q) SIM_CHECK(got[i][q] == solo->h[i][q], "task-influenced", "a task using its own %s got other results %s than when it runs alone", solo->name[i][j], mode == 0 ? "next to other tasks" : "after other tasks");
  }
  for(int i = 0; i < n; ++i) for(uint32_t q = 0; q < cnt[i]; ++q) sim::state(got[i][q]);
}
// ---- C12 -----------------------------------------------------------------------------
void modify(detector::DetectorModel& d, S& s, int i) {
  switch(s.below(4)) {
    case 0: d.SetDetectorOrigin(detector::GeometryPosition(vec(s, 20))); break;
    case 1: d.SetDetectorRotation(quat(s)); break;
    default: { detector::DetectorSector q; char b[32]; snprintf(b, sizeof b, "extra%d", i); q.name = b; q.material_id = 0; q.level = 100 + i; q.geo = shape(s, uni(s, 2, 60)); q.density = density(s); d.AddSector(q); }
  }
}
std::vector<V> ask(std::shared_ptr<detector::DetectorModel> d, World const& w, uint64_t seed, int n) {
  Out o; S s(seed); (void)w;
  for(int i = 0; i < n; ++i) {
    detector::DetectorPosition a(vec(s, coin(s) ? 40 : 250)); detector::DetectorDirection u(unitv(s)); double L = uni(s, 1, 300); detector::DetectorPosition b(a.get() + L * u.get());
    std::vector<PT> t{PT::HNucleus, PT::O16Nucleus, PT::Fe56Nucleus}; std::vector<double> xs{1e-28, 3e-28, 2e-27}; int q = (int)s.below(9);
    o.num(q);
    o.call([&] { switch(q) {
      case 0: { auto l = d->GetIntersections(a, u); o.num((double)l.intersections.size()); for(auto& x : l.intersections) { o.num(x.distance); o.num(x.hierarchy); o.num(x.entering); } o.num(d->GetColumnDepthInCGS(l, a, b)); break; }
      case 1: { auto c = d->GetContainingSector(a); o.str(c.name); o.num(c.level); o.num(c.material_id); break; }
      case 2: o.num(d->GetMassDensity(a)); break;
      case 3: o.num(d->GetColumnDepthInCGS(a, b)); break;
      case 4: o.num(d->GetInteractionDepthInCGS(a, b, t, xs, 1e4)); break;
      case 5: { auto g = d->GetAvailableTargets(a); for(auto x : g) o.num((double)(int)x); o.num(d->GetParticleDensity(a, PT::O16Nucleus)); break; }
      case 6: { detector::Path p(d, a, u, L); p.ClipToOuterBounds(); o.num(p.GetColumnDepthInBounds()); o.num(p.GetInteractionDepthInBounds(t, xs, 1e4)); break; }
      case 7: { auto l = d->GetOuterBounds(a, u); o.num((double)l.intersections.size()); for(auto& x : l.intersections) o.num(x.distance); break; }
      default: { for(auto const& sec : d->GetSectors()) { o.num(sec.geo->IsInside(d->ToGeo(a).get())); } o.num(d->GetInteractionDensity(a, t, xs, 1e4)); }
    } });
  }
  return o.a;
}
void readers() {
  uint64_t seed = sim::u64(); int maxsec = 2 + (int)sim::choose(6); auto mk = [&] { S s(seed); return detmodel(s, maxsec); };
  auto d = mk(), ref = mk(); World w; int phases = 1 + (int)sim::choose_w({5, 3, 1}), nth = 2 + (int)sim::choose_w({5, 2, 1}); uint64_t mseed = sim::u64();
  sim::log("%d sectors", (int)d->GetSectors().size());
  for(int ph = 0; ph < phases; ++ph) {
    if(ph || sim::chance(0.3)) { int k = 1 + (int)sim::choose(2); for(int i = 0; i < k; ++i) { S a(mseed + 10 * ph + i), b(mseed + 10 * ph + i); modify(*d, a, 10 * ph + i); modify(*ref, b, 10 * ph + i); } sim::log("modified"); sim::probe("modified between readers"); }
    if(sim::chance(0.2)) { std::stringstream ss; { cereal::BinaryOutputArchive ar(ss); ar(d); } sim::log("archived"); sim::probe("archived between readers"); if(sim::chance(0.5)) { std::shared_ptr<detector::DetectorModel> q; cereal::BinaryInputArchive ar(ss); ar(q); d = q; sim::log("restored"); sim::probe("restored between readers"); } }
    std::vector<uint64_t> qs; std::vector<int> nq; for(int i = 0; i < nth; ++i) { qs.push_back(sim::chance(0.4) && i ? qs[0] : sim::u64()); nq.push_back(1 + (int)sim::choose(4)); }
    std::vector<Ans> want(nth), got(nth);
    bool before = sim::chance(0.5); auto reference = [&] { sim::StepGuard g(4000000000ull, "one thread asking a detector model"); for(int i = 0; i < nth; ++i) want[i] = ask(ref, w, qs[i], nq[i]); };
    if(before) reference();
    std::vector<std::function<void()>> b; for(int i = 0; i < nth; ++i) b.push_back([&, i] { got[i] = ask(d, w, qs[i], nq[i]); });
    sim::ThreadOpts o; o.race = true; o.max_gap = 1ull << (4 + sim::choose(13)); o.step_limit = 20000000000ull; sim::run_threads(b, o);
    if(!before) reference();
    for(int i = 0; i < nth; ++i) { SIM_CHECK(hash(want[i]) == hash(got[i]) && want[i].size() == got[i].size(), "wrong-answer", "a detector model asked by %d threads at once gave another answer than to one thread alone: %s", nth, diff(got[i], want[i]).c_str()); sim::state(hash(got[i])); }
  }
}
sim::Reg r1("isolation", isolation, "independent tasks interleaved in one process");
sim::Reg r2("readers", readers, "threads querying one detector model");
}
