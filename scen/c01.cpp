// C01: particle identifiers are unique over threads and forked processes.
#include "sim.h"
#include <map>
#include "SIREN/dataclasses/ParticleID.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/dataclasses/InteractionSignature.h"
using namespace siren::dataclasses;
namespace {
struct Ids { uint32_t n; struct { uint64_t major; int64_t minor; int pid; int th; int set; } v[400000]; };
Ids* ids; int inside; bool bulk;
void note(ParticleID const& id) {
  if(ids->n >= 400000) return;
  auto& e = ids->v[ids->n++]; e.major = id.GetMajorID(); e.minor = id.GetMinorID(); e.pid = sim::env().pid; e.th = sim::self(); e.set = id.IsSet(); if(!bulk) sim::log("process %d thread %d got serial %lld", e.pid, e.th, (long long)e.minor);
}
void one() {
  inside++;
  switch(sim::choose_w({8, 1})) {
    case 0: { ParticleID id = ParticleID::GenerateID(); inside--; note(id); break; }
    default: { // identifiers handed out while building an interaction
      InteractionRecord rec; rec.signature.primary_type = ParticleType::NuMu; rec.signature.target_type = ParticleType::PPlus; rec.signature.secondary_types = {ParticleType::MuMinus, ParticleType::Hadrons};
      CrossSectionDistributionRecord x(rec);
      inside--;
      for(auto& s : x.GetSecondaryParticleRecords()) note(s.id);
      if(x.target_id.IsSet()) note(x.target_id);
    }
  }
}
void clockwork() {
  switch(sim::choose_w({6, 2, 1})) { case 1: sim::env().t_sec += 1 + sim::choose(3); break; case 2: sim::env().t_sec -= 1 + sim::choose(3); sim::fault("clock-back"); break; default: break; }
}
void process(int depth);
void threads(int depth) {
  int n = 1 + sim::choose(4); std::vector<std::function<void()>> b;
  for(int t = 0; t < n; ++t) {
    int k = 1 + sim::choose(4);
    b.push_back([k, depth] { for(int i = 0; i < k; ++i) { one(); if(depth < 2 && inside == 0 && sim::chance(0.05)) { sim::probe("fork-from-thread"); sim::fault("fork"); sim::NoPreempt np; sim::forked([depth] { process(depth + 1); }); } } });
  }
  sim::ThreadOpts o; o.max_gap = 256; o.step_limit = 2000000; sim::run_threads(b, o);
}
void process(int depth) {
  inside = 0;
  int phases = 1 + sim::choose(3);
  for(int p = 0; p < phases; ++p) {
    clockwork();
    switch(sim::choose_w({4, 2, depth < 2 ? 3u : 0u})) {
      case 0: threads(depth); break;
      case 1: one(); break;
      case 2: sim::fault("fork"); sim::forked([depth] { process(depth + 1); }); break;
    }
  }
}
// long histories: enough requests to pass any small counter's range, from several threads and across a fork
void many() {
  bulk = true; sim::probe("many"); uint32_t total = 1u << (11 + sim::choose(8)); total += sim::choose(1000);
  auto burst = [](uint32_t k) { for(uint32_t i = 0; i < k; ++i) { inside++; ParticleID id = ParticleID::GenerateID(); inside--; note(id); } };
  int n = 1 + sim::choose(3); uint32_t first = total / 2;
  if(n == 1) burst(first); else { std::vector<std::function<void()>> b; for(int t = 0; t < n; ++t) b.push_back([&burst, first, n] { burst(first / n); }); sim::ThreadOpts o; o.max_gap = 200000; o.step_limit = 400000000; sim::run_threads(b, o); }
  sim::log("%u identifiers", ids->n);
  if(sim::chance(0.5)) { clockwork(); sim::fault("fork"); sim::forked([&burst, total] { inside = 0; burst(total / 4); }); }
  burst(total / 4); bulk = false; sim::log("%u identifiers", ids->n);
}
void run() {
  ids = (Ids*)sim::shared_scratch(sizeof(Ids)); ids->n = 0;
  if(sim::chance(0.5)) sim::env_random();
  sim::set_step_limit(400000000, "the identifier workload");
  bulk = false; if(sim::chance(0.01)) many(); else process(0);
  std::map<std::pair<uint64_t, int64_t>, int> seen;
  for(uint32_t i = 0; i < ids->n; ++i) {
    auto& e = ids->v[i];
    SIM_CHECK(e.set, "id-not-set", "a generated identifier is not marked as set (pid %d thread %d)", e.pid, e.th);
    auto it = seen.insert({{e.major, e.minor}, (int)i});
    if(!it.second) { auto& f = ids->v[it.first->second]; sim::fail("duplicate-id", "identifier (%llu,%lld) was handed out twice: to process %d thread %d and to process %d thread %d", (unsigned long long)e.major, (long long)e.minor, f.pid, f.th, e.pid, e.th); }
  }
  for(uint32_t k = 0; k < 64 && ids->n > 1; ++k) { // and the library itself tells them apart
    uint32_t i = sim::choose(ids->n), j = k % 2 ? sim::choose(ids->n) : (i + 1) % ids->n; if(i == j) continue;
    ParticleID a(ids->v[i].major, ids->v[i].minor), b(ids->v[j].major, ids->v[j].minor);
    SIM_CHECK(!(a == b) && a != b && (a < b) != (b < a), "same-id", "identifiers (%llu,%lld) and (%llu,%lld) are not told apart", (unsigned long long)ids->v[i].major, (long long)ids->v[i].minor, (unsigned long long)ids->v[j].major, (long long)ids->v[j].minor);
  }
  sim::trivial(ids->n < 2);
  sim::probe("ids", ids->n);
}
sim::Reg r("ids", run, "threads and forked processes request identifiers");
}
