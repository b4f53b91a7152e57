// C06: archived components restore to the same behaviour.
#include "components.h"
#include <fstream>
namespace {
using namespace comp;
Ans ask(Component const& c, World const& w, uint64_t seed) { sim::StepGuard g(4000000000ull, "asking a component"); return c.answers(w, seed); }
void run() {
  sim::Stream st = sim::stream(); int kind = (int)sim::choose(18); World w; { sim::Stream ws = sim::stream(); w = world(ws); }
  Component c = make(st, sim::scratch(), kind); sim::context("%s %s", c.family.c_str(), c.name.c_str()); sim::probe(c.name.c_str());
  uint64_t seed = sim::u64(); bool used = sim::chance(0.5); Ans before; if(used) before = ask(c, w, seed);
  sim::log("%s %s%s", c.family.c_str(), c.name.c_str(), used ? ", used" : "");
  Component cur = c; int rounds = 1 + (int)sim::choose_w({6, 2, 1});
  for(int r = 0; r < rounds; ++r) {
    int mode = (int)sim::choose_w({5, 3, 2, 2}); // memory, file, file with write fault, truncated or unreadable
    if(mode == 0) {
      std::stringstream ss; try { cur.save(ss); cur = cur.load(ss); } catch(std::exception const& e) { sim::fail("archive-raised", "archiving and restoring a %s %s in memory raised: %s", c.family.c_str(), c.name.c_str(), e.what()); }
      sim::log("through memory"); std::string rest; SIM_CHECK(ss.peek() == EOF, "archive-left-over", "restoring a %s %s left part of its archive unread", c.family.c_str(), c.name.c_str());
      continue;
    }
    std::string path = sim::scratch() + "/a.bin"; sim::disk_reset(); sim::Disk& d = sim::disk(); bool raised = false; size_t size = 0;
    { std::stringstream ss; cur.save(ss); size = ss.str().size(); }
    if(sim::chance(0.5)) { d.p_short_write = 0.3; d.p_short_read = 0.3; } if(sim::chance(0.3)) { d.p_eintr_write = 0.1; d.p_eintr_read = 0.1; }
    if(mode == 2) { if(sim::chance(0.2)) d.fail_close = true; else { d.fail_write_at = (int64_t)sim::choose((uint32_t)size); d.fail_write_errno = sim::chance(0.5) ? 28 : 5; } }
    d.armed = true;
    try { std::ofstream os(path, std::ios::binary); cur.save(os); os.close(); if(!os) throw std::runtime_error("write"); } catch(std::exception const& e) { raised = true; }
    d.armed = false; sim::log("saved to a file (%s)%s", mode == 2 ? "write fault" : "", raised ? ", raised" : "");
    bool faulted = d.write_failed || d.close_failed;
    if(raised) { SIM_CHECK(faulted, "archive-raised", "archiving a %s %s to a file raised without a fault", c.family.c_str(), c.name.c_str()); continue; }
    SIM_CHECK(!faulted, "write-error-hidden", "archiving a %s %s to a failing disk returned normally with the stream in a good state", c.family.c_str(), c.name.c_str());
    bool cut = false; sim::disk_reset();
    if(mode == 3) { std::string s = sim::slurp(path); if(sim::chance(0.6)) { size_t back = 1 + (sim::chance(0.5) ? sim::choose((uint32_t)std::min<size_t>(s.size(), 20)) : sim::choose((uint32_t)s.size())); if(back > s.size()) back = s.size(); s.resize(s.size() - back); sim::spit(path, s); cut = true; } else { d.fail_read_at = (int64_t)sim::choose((uint32_t)s.size()); } }
    d.armed = true; raised = false; Component got; sim::alloc_cap(256u << 20);
    try { std::ifstream is(path, std::ios::binary); got = cur.load(is); } catch(std::exception const& e) { raised = true; }
    sim::alloc_cap(0); d.armed = false; sim::log("restored from a file (%s)%s", mode == 3 ? "damaged" : "", raised ? ", raised" : "");
    if(cut || d.read_failed) { SIM_CHECK(raised, "partial-archive-accepted", "restoring a %s %s from an archive that was %s returned normally", c.family.c_str(), c.name.c_str(), cut ? "cut off" : "unreadable"); continue; }
    SIM_CHECK(!raised, "restore-raised", "restoring a %s %s from an intact archive raised", c.family.c_str(), c.name.c_str());
    cur = got;
  }
  if(cur.p == c.p) return;
  SIM_CHECK(c.equal(cur), "not-equal", "a restored %s %s does not compare equal to the original", c.family.c_str(), c.name.c_str());
  Ans want = ask(c, w, seed), got = ask(cur, w, seed);
  sim::state(hash(want));
  if(used && !c.stateful) SIM_CHECK(same(before, want), "not-repeatable", "a %s %s gave different answers to the same questions (%s)", c.family.c_str(), c.name.c_str(), diff(want, before).c_str());
  SIM_CHECK(same(got, want), "different-behaviour", "a restored %s %s answers differently: %s", c.family.c_str(), c.name.c_str(), diff(got, want).c_str());
  SIM_CHECK(c.equal(cur), "not-equal", "a restored %s %s no longer compares equal to the original after use", c.family.c_str(), c.name.c_str());
}
sim::Reg r("archive", run, "components archived and restored at seeded points of their use");
}
