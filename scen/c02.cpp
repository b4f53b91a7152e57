// C02: a seed fixes the entire random stream.   C03: unseeded generators differ.
#include "sim.h"
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <cmath>
#include <cereal/archives/binary.hpp>
#include "SIREN/utilities/Random.h"
using siren::utilities::SIREN_random;
namespace {
struct Op { int kind; double a, b, c; uint32_t n; double got; };
double apply(SIREN_random& r, Op const& o) {
  switch(o.kind) {
    case 0: return r.Uniform();
    case 1: return r.Uniform(o.a, o.b);
    case 2: return r.PowerLaw(o.a, o.b, o.c);
    default: { double x = 0; for(uint32_t i = 0; i < o.n; ++i) { double v = r.Uniform(); if(!(v >= 0 && v <= 1)) return NAN; x = x * 0.5 + v; } return x; }
  }
}
struct Gen { std::unique_ptr<SIREN_random> r; uint64_t seed; std::vector<Op> hist; std::vector<std::pair<uint64_t, std::vector<Op>>> done; };
uint64_t pick_seed() {
  switch(sim::choose(6)) { case 0: return sim::choose(8); case 1: return (uint64_t)sim::choose(4) << 32; case 2: return ~0ull - sim::choose(4); case 3: return 1ull << sim::choose(64); case 4: return sim::u32(); default: return sim::u64(); }
}
void retire(Gen& g) { g.done.emplace_back(g.seed, std::move(g.hist)); g.hist.clear(); }
uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
void act(Gen& g, std::vector<Gen>* pool) {
  switch(sim::choose_w({20, 3, 2, 2, 2})) {
    case 0: {
      Op o{(int)sim::choose_w({6, 6, 2, 1}), 0, 1, 0, 0, 0};
      if(o.kind == 1) { double s = std::ldexp(1.0, (int)sim::choose(40) - 20); o.a = s * sim::range(-1, 1); o.b = sim::chance(0.1) ? o.a : s * sim::range(-1, 1); }
      if(o.kind == 2) { o.a = 0; o.b = 1; o.c = sim::range(0, 3); }
      if(o.kind == 3) o.n = 1 + (uint32_t)sim::log_uniform(sim::chance(0.01) ? 200000 : 3000);
      o.got = apply(*g.r, o);
      if(o.kind <= 1) { double lo = std::min(o.a, o.b), hi = std::max(o.a, o.b); SIM_CHECK(o.got >= lo && o.got <= hi, "out-of-range", "Uniform(%.17g, %.17g) returned %.17g", o.a, o.b, o.got); }
      SIM_CHECK(!(o.kind == 3 && std::isnan(o.got)), "out-of-range", "a default uniform draw was outside [0,1]");
      sim::log("draw kind %d", o.kind);
      g.hist.push_back(o); break;
    }
    case 1: { retire(g); g.seed = sim::chance(0.3) ? g.seed : pick_seed(); g.r->set_seed(g.seed); sim::log("reseed"); sim::probe("reseed"); break; }
    case 2: { // save, restore into a fresh or into a used generator (cereal itself is not thread safe: one archive at a time)
      static std::mutex archives; std::lock_guard<std::mutex> lk(archives);
      std::stringstream ss; { cereal::BinaryOutputArchive a(ss); a(*g.r); }
      retire(g);
      if(sim::chance(0.5)) { std::unique_ptr<SIREN_random> n(new SIREN_random(pick_seed())); for(uint32_t i = sim::choose(3); i; --i) n->Uniform(); { cereal::BinaryInputArchive a(ss); a(*n); } g.r = std::move(n); }
      else { cereal::BinaryInputArchive a(ss); a(*g.r); }
      sim::log("save-restore"); sim::probe("save-restore"); break;
    }
    case 3: { // a copy continues the same stream; the original is dropped
      std::unique_ptr<SIREN_random> n(new SIREN_random(*g.r)); if(sim::chance(0.5)) { for(int i = 0; i < 3; ++i) g.r->Uniform(); g.r = std::move(n); } else { for(int i = 0; i < 3; ++i) n->Uniform(); } sim::log("copy"); sim::probe("copy"); break; }
    case 4: { retire(g); g.seed = pick_seed(); g.r.reset(new SIREN_random(g.seed)); sim::log("new"); break; }
  }
  SIM_CHECK(g.r->get_seed() == g.seed, "wrong-seed", "get_seed() is %llu, the seed in force is %llu", (unsigned long long)g.r->get_seed(), (unsigned long long)g.seed);
  switch(sim::choose_w({12, 1, 1})) { case 1: sim::env().t_sec += sim::choose(100000); break; case 2: sim::env().t_sec -= sim::choose(100000); sim::fault("clock-back"); break; default: break; }
}
void run_streams() {
  if(sim::chance(0.7)) sim::env_random();
  int n = 1 + sim::choose(4); std::vector<Gen> g(n);
  for(auto& x : g) { if(sim::chance(0.15)) { x.r.reset(new SIREN_random()); x.seed = x.r->get_seed(); } else { x.seed = pick_seed(); x.r.reset(new SIREN_random(x.seed)); } }
  int len = 2 + (int)sim::log_uniform(24);
  sim::set_step_limit(400000000, "drawing random numbers");
  if(sim::chance(0.75) && n > 1) {
    std::vector<std::function<void()>> b; for(int i = 0; i < n; ++i) b.push_back([&g, i, len] { for(int k = 0; k < len; ++k) act(g[i], nullptr); });
    sim::ThreadOpts o; o.max_gap = 4096; o.race = true; sim::run_threads(b, o);
  } else for(int k = 0; k < len; ++k) act(g[sim::choose(n)], nullptr);
  // reference: the same requests against a generator used alone, in another environment
  sim::env().t_sec += 12345; sim::env().pid += 17; sim::env().hostid ^= 0x55;
  std::map<uint64_t, std::vector<double>> first; size_t total = 0;
  for(auto& x : g) {
    retire(x);
    for(auto& h : x.done) {
      SIREN_random ref(h.first); int k = 0;
      for(auto& o : h.second) { double v = apply(ref, o); total++; SIM_CHECK(bits(v) == bits(o.got), "stream-differs", "seed %llu: request %d of the stream gave %.17g, the same seed used alone gives %.17g", (unsigned long long)h.first, k, o.got, v); ++k; }
      SIREN_random f2(h.first ^ 0x5a5a); f2.set_seed(h.first); std::vector<double> a, b; SIREN_random f1(h.first); for(int i = 0; i < 4; ++i) { a.push_back(f1.Uniform()); b.push_back(f2.Uniform()); }
      SIM_CHECK(a == b, "reseed-differs", "a generator reseeded with %llu does not start the stream of that seed", (unsigned long long)h.first);
      first[h.first] = a;
    }
  }
  std::map<std::vector<double>, uint64_t> inv; for(auto& f : first) { auto it = inv.insert({f.second, f.first}); SIM_CHECK(it.second, "seeds-alias", "seeds %llu and %llu give the same stream", (unsigned long long)f.first, (unsigned long long)it.first->second); }
  sim::probe("draws", total); sim::trivial(total < 2);
}
sim::Reg r1("streams", run_streams, "seeded generators under interleaving, reseed, copy, save/restore");

// ---------------------------------------------------------------- C03
struct Seeds { uint32_t n; struct { uint64_t seed; int pid, th; } v[200000]; }; Seeds* sd; bool bulk; int inside;
void create() {
  inside++; uint64_t s;
  if(sim::chance(0.3)) s = SIREN_random::generate_seed(); else { SIREN_random r; s = r.get_seed(); }
  inside--;
  if(sd->n < 200000) { auto& e = sd->v[sd->n++]; e.seed = s; e.pid = sim::env().pid; e.th = sim::self(); }
  if(!bulk) sim::log("created in process %d thread %d", sim::env().pid, sim::self());
  switch(sim::choose_w({10, 2, 1})) { case 1: sim::env().t_sec += 1; break; case 2: sim::env().t_sec -= 1; sim::fault("clock-back"); break; default: break; }
}
void proc(int depth) {
  inside = 0; int ph = 1 + sim::choose(3);
  for(int p = 0; p < ph; ++p) switch(sim::choose_w({3, 3, depth < 2 ? 2u : 0u})) {
    case 0: create(); break;
    case 1: { std::vector<std::function<void()>> b; int n = 1 + sim::choose(4); for(int i = 0; i < n; ++i) { int k = 1 + sim::choose(4); b.push_back([k, depth] { for(int j = 0; j < k; ++j) { create(); if(depth < 2 && inside == 0 && sim::chance(0.05)) { sim::fault("fork"); sim::NoPreempt np; sim::forked([depth] { proc(depth + 1); }); } } }); } sim::ThreadOpts o; o.max_gap = 512; o.step_limit = 5000000; sim::run_threads(b, o); break; }
    case 2: sim::fault("fork"); sim::forked([depth] { proc(depth + 1); }); break;
  }
}
void run_auto() {
  sd = (Seeds*)sim::shared_scratch(sizeof(Seeds)); sd->n = 0;
  if(sim::chance(0.5)) sim::env_random();
  sim::set_step_limit(400000000, "creating generators");
  bulk = false;
  if(sim::chance(0.01)) { sim::probe("many"); bulk = true; uint32_t k = 1u << (9 + sim::choose(9)); inside = 0; auto burst = [](uint32_t m) { for(uint32_t i = 0; i < m; ++i) { uint64_t s = SIREN_random::generate_seed(); if(sd->n < 200000) { auto& e = sd->v[sd->n++]; e.seed = s; e.pid = sim::env().pid; e.th = 0; } } }; burst(k); if(sim::chance(0.5)) { sim::fault("fork"); sim::forked([&burst, k] { burst(k / 2); }); } burst(k / 4); bulk = false; sim::log("%u seeds", sd->n); }
  else proc(0);
  std::map<uint64_t, int> seen;
  for(uint32_t i = 0; i < sd->n; ++i) { auto it = seen.insert({sd->v[i].seed, (int)i}); if(!it.second) { auto& f = sd->v[it.first->second]; sim::fail("same-seed", "two unseeded generators share seed %llu: process %d thread %d and process %d thread %d", (unsigned long long)sd->v[i].seed, f.pid, f.th, sd->v[i].pid, sd->v[i].th); } }
  sim::trivial(sd->n < 2); sim::probe("generators", sd->n);
}
sim::Reg r2("autoseed", run_auto, "unseeded generators in threads and forked processes");
}
