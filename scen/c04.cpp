// C04: saving events is complete and faithful, or reports failure.
// C05: a damaged event file never crashes or hangs the loader.
#include "events_common.h"
#include <unistd.h>
#include <sstream>
#include <cereal/archives/binary.hpp>
#include <cereal/types/memory.hpp>
#include <cereal/types/vector.hpp>
using namespace ev;
namespace {
typedef std::vector<std::shared_ptr<InteractionTree>> Trees;
struct World { Trees trees; std::vector<Model> models; std::vector<int> of; };
void make(World& w, uint32_t maxt, uint32_t maxn, bool ragged) {
  uint32_t n = sim::choose(maxt + 1); w.models.reserve(n + 1); std::vector<std::shared_ptr<InteractionTree>> uniq;
  for(uint32_t i = 0; i < n; ++i) {
    if(!uniq.empty() && sim::chance(0.1)) { int k = sim::choose((uint32_t)uniq.size()); w.trees.push_back(uniq[k]); w.of.push_back(k); sim::probe("repeated-tree"); continue; }
    w.models.emplace_back(); auto t = build(w.models.back(), maxn, ragged); uniq.push_back(t); w.trees.push_back(t); w.of.push_back((int)w.models.size() - 1);
    check_tree("after building", *t, w.models.back());
  }
}
void compare(const char* when, World const& w, Trees const& got) {
  SIM_CHECK(got.size() == w.trees.size(), "list-size", "%s: %zu events instead of %zu", when, got.size(), w.trees.size());
  for(size_t i = 0; i < got.size(); ++i) { SIM_CHECK(got[i] != nullptr, "null-tree", "%s: event %zu is missing", when, i); check_tree(when, *got[i], w.models[w.of[i]]); }
}
std::string describe(World const& w) { std::string s; for(size_t i = 0; i < w.trees.size(); ++i) s += (i ? "," : "") + std::to_string(w.models[w.of[i]].nodes.size()); return s; }
void run_save() {
  World w; make(w, 4, sim::chance(0.1) ? 24 : 5, sim::chance(0.2));
  std::string base = sim::scratch() + "/events", file = base + ".siren_events"; std::string full; size_t rounds = 1 + sim::choose(3);
  sim::log("events with %s nodes", describe(w).c_str());
  for(size_t round = 0; round < rounds; ++round) {
    // size of the file when all goes well
    { sim::disk_reset(); SaveInteractionTrees(w.trees, base + "ref"); full = sim::slurp(base + "ref.siren_events"); }
    unlink(file.c_str()); if(sim::chance(0.5)) sim::spit(file, std::string(sim::choose(5000), (char)0xf7)); // an older, possibly longer file is there
    sim::Disk& d = sim::disk(); sim::disk_reset(); d.armed = true;
    if(sim::chance(0.3)) d.p_short_write = 0.3; if(sim::chance(0.3)) d.p_eintr_write = 0.2;
    int64_t alloc = -1;
    switch(sim::choose_w({4, 4, 3, 2, 3, 2})) {
      case 1: d.fail_write_at = (int64_t)sim::choose((uint32_t)full.size() + 1); d.fail_write_errno = sim::chance(0.5) ? 28 : 5; d.fail_write_once = sim::chance(0.3); break;
      case 2: d.fail_close = true; break;
      case 3: d.fail_open_errno = sim::chance(0.5) ? 13 : 28; break;
      case 4: d.crash_at = (int64_t)sim::choose((uint32_t)full.size() + 1); break;
      case 5: alloc = (int64_t)sim::log_uniform(200); break;
      default: break;
    }
    if(alloc >= 0) sim::alloc_fail_at(alloc);
    bool raised = false; std::string what;
    { sim::StepGuard g(200000000, "saving events"); try { SaveInteractionTrees(w.trees, base); } catch(std::exception const& e) { sim::alloc_disarm(); raised = true; what = e.what(); } }
    bool afail = sim::alloc_failed(); sim::alloc_fail_at(-1);
    bool failed = d.write_failed || d.close_failed || d.open_failed, crashed = d.crashed; d.armed = false;
    sim::log("save %s%s", raised ? "raised" : "returned", crashed ? " (power lost meanwhile)" : "");
    if(d.open_failed) unlink(file.c_str()); // what was there before is not the subject
    std::string bytes = sim::slurp(file);
    if(crashed) { SIM_CHECK(bytes.size() < full.size(), "internal", "harness: crash without loss"); }
    else {
      SIM_CHECK(raised || !failed, "failure-hidden", "saving returned normally although %s failed (%zu of %zu bytes in the file)", d.open_failed ? "opening the file" : d.close_failed ? "closing the file" : "a write", bytes.size(), full.size());
      SIM_CHECK(!raised || failed || afail, "spurious-failure", "saving raised (%s) although nothing failed", what.c_str());
    }
    for(size_t i = 0; i < w.trees.size(); ++i) check_tree("after saving", *w.trees[i], w.models[w.of[i]]);
    sim::probe(raised ? "save-raised" : crashed ? "save-crashed" : "saved");
    // loading, with faults of its own
    bool complete = !raised && !crashed; int nl = 1 + sim::choose(2); if(raised && d.fail_write_once) nl = 0; // a block in the middle may be missing: damage, not truncation
    for(int l = 0; l < nl; ++l) {
      sim::disk_reset(); bool must_raise = false, may_raise = false; std::string want = bytes; const char* k = "intact";
      if(!complete && bytes.size() < full.size()) { must_raise = true; k = "left by a failed save"; }
      else if(!complete) { may_raise = true; k = "failed save"; }
      int m = sim::choose_w({4, 3, 3, 1, 2}); alloc = -1;
      if(sim::chance(0.3)) d.p_short_read = 0.4; if(sim::chance(0.3)) d.p_eintr_read = 0.2;
      if(m == 1 && bytes.size()) { std::string cut = bytes.substr(0, sim::choose((uint32_t)bytes.size())); if(cut.size() < full.size()) must_raise = true; sim::spit(file, cut); sim::fault("truncation"); k = "cut off"; }
      if(m == 2 && bytes.size()) { d.fail_read_at = (int64_t)sim::choose((uint32_t)bytes.size()); must_raise = true; k = "unreadable"; }
      if(m == 3) { if(sim::chance(0.5)) { d.fail_open_errno = 13; } else { unlink(file.c_str()); sim::fault("missing-file"); } must_raise = true; k = "missing"; }
      if(m == 4) { alloc = (int64_t)sim::log_uniform(100); may_raise = true; }
      d.armed = true; if(alloc >= 0) sim::alloc_fail_at(alloc);
      Trees got; raised = false; what.clear();
      { sim::StepGuard g(200000000, "loading events"); try { got = LoadInteractionTrees(base); } catch(std::exception const& e) { sim::alloc_disarm(); raised = true; what = e.what(); } }
      sim::alloc_fail_at(-1); d.armed = false;
      sim::log("load (%s) %s", k, raised ? "raised" : "returned");
      SIM_CHECK(raised || !must_raise, "partial-load", "loading a file that is %s (%zu of %zu bytes) returned %zu events instead of raising", k, sim::slurp(file).size(), full.size(), got.size());
      SIM_CHECK(!raised || must_raise || may_raise, "spurious-failure", "loading an intact file raised: %s", what.c_str());
      if(!raised) { compare("after loading", w, got); sim::probe("loaded"); } else sim::probe("load-raised");
      sim::spit(file, bytes);
    }
    // the list grows between saves
    if(round + 1 < rounds && !w.trees.empty() && sim::chance(0.7)) {
      int i = sim::choose((uint32_t)w.trees.size()); Model& m = w.models[w.of[i]]; sim::Stream s = sim::stream(); Node nd; nd.rec = record(s, false); nd.parent = (int)sim::choose((uint32_t)m.nodes.size() + 1) - 1;
      InteractionRecord r = nd.rec; w.trees[i]->add_entry(r, nd.parent < 0 ? nullptr : w.trees[i]->tree[nd.parent]); if(nd.parent >= 0) m.nodes[nd.parent].daughters.push_back((uint32_t)m.nodes.size()); m.nodes.push_back(nd);
      check_tree("after growing", *w.trees[i], m);
    }
    for(size_t i = 0; i < w.trees.size(); ++i) { Model& m = w.models[w.of[i]]; for(size_t j = 0; j < m.nodes.size(); ++j) SIM_CHECK(w.trees[i]->depth((uint32_t)j) == ref_depth(m, (int)j), "depth", "depth of node %zu is %d instead of %d", j, w.trees[i]->depth((uint32_t)j), ref_depth(m, (int)j)); }
  }
  sim::trivial(w.trees.empty());
}
sim::Reg r1("save", run_save, "event files under disk faults");

// ---------------------------------------------------------------- C05
// Mirrors of the archived layout with free index fields; written by cereal itself.
struct MDatum { InteractionRecord record; uint32_t node_id = 0, parent_index = 0; std::vector<uint32_t> daughter_indices;
  template<class A> void serialize(A& a, std::uint32_t const) { a(cereal::make_nvp("Record", record)); a(cereal::make_nvp("NodeId", node_id)); a(cereal::make_nvp("ParentIndex", parent_index)); a(cereal::make_nvp("DaughterIndices", daughter_indices)); } };
struct MHeader { uint64_t event_number = 0; std::vector<double> weights; std::map<std::string, std::string> provenance; template<class A> void serialize(A& a, std::uint32_t const) { a(cereal::make_nvp("EventNumber", event_number)); a(cereal::make_nvp("Weights", weights)); a(cereal::make_nvp("Provenance", provenance)); } };
struct MTree { std::vector<std::shared_ptr<MDatum>> tree; MHeader header; template<class A> void serialize(A& a, std::uint32_t const) { a(cereal::make_nvp("Tree", tree)); a(cereal::make_nvp("Header", header)); } };
struct LDatum { InteractionRecord record; std::shared_ptr<LDatum> parent; std::vector<std::shared_ptr<LDatum>> daughters; template<class A> void serialize(A& a, std::uint32_t const) { a(cereal::make_nvp("Record", record)); a(cereal::make_nvp("Parent", parent)); a(cereal::make_nvp("Daughters", daughters)); } };
struct LTree { std::vector<std::shared_ptr<LDatum>> tree; template<class A> void serialize(A& a, std::uint32_t const) { a(cereal::make_nvp("Tree", tree)); } };
// The same bytes as a binary archive, remembering which words are cereal's own structure.
struct RoleOut : cereal::OutputArchive<RoleOut, cereal::AllowEmptyClassElision> {
  std::string bytes; std::vector<std::pair<size_t, size_t>> structural, index; int mark = 0;
  RoleOut() : cereal::OutputArchive<RoleOut, cereal::AllowEmptyClassElision>(this) {}
  void put(const void* p, size_t n) { if(mark == 1) structural.push_back({bytes.size(), n}); if(mark == 2) index.push_back({bytes.size(), n}); bytes.append((const char*)p, n); }
};
template<class T> std::enable_if_t<std::is_arithmetic<T>::value> save(RoleOut& a, T const& t) { a.put(&t, sizeof t); }
template<class T> void save(RoleOut& a, cereal::BinaryData<T> const& d) { a.put(d.data, (size_t)d.size); }
template<class T> void save(RoleOut& a, cereal::NameValuePair<T> const& t) { int o = a.mark; bool st = !strcmp(t.name, "id") || !strcmp(t.name, "cereal_class_version"); if(st) a.mark = 1; else if(!strcmp(t.name, "NodeId") || !strcmp(t.name, "ParentIndex") || !strcmp(t.name, "DaughterIndices")) a.mark = 2; else if(!strcmp(t.name, "data") || !strcmp(t.name, "ptr_wrapper")) a.mark = 0; a(t.value); a.mark = o; }
template<class T> void save(RoleOut& a, cereal::SizeTag<T> const& t) { int o = a.mark; a.mark = 1; a(t.size); a.mark = o; }
}
CEREAL_CLASS_VERSION(MDatum, 1); CEREAL_CLASS_VERSION(MHeader, 0); CEREAL_CLASS_VERSION(MTree, 1); CEREAL_CLASS_VERSION(LDatum, 0); CEREAL_CLASS_VERSION(LTree, 0);
namespace cereal { template<class T> struct DummyNothing; }
CEREAL_REGISTER_ARCHIVE(RoleOut)
namespace {
uint32_t bad_index(uint32_t good, uint32_t n, uint32_t self) { switch(sim::choose(8)) { case 0: return n; case 1: return n + 1 + sim::choose(3); case 2: return kNoParent; case 3: return kNoParent - 1 - sim::choose(2); case 4: return self; case 5: return sim::choose(n + 1); case 6: return good + 1; default: return sim::u32(); } }
void inspect(Trees const& got, bool from_damage) {
  for(size_t t = 0; t < got.size(); ++t) {
    if(!got[t]) continue; auto& T = *got[t]; uint32_t n = (uint32_t)T.tree.size();
    for(uint32_t i = 0; i < n; ++i) {
      SIM_CHECK(T.tree[i] != nullptr, "null-node", "the loader returned a tree whose node %u of %u is missing", i, n); auto& d = *T.tree[i];
      SIM_CHECK(d.node_id == i, "node-id", "the loader returned a tree whose node at position %u has number %u", i, d.node_id);
      SIM_CHECK(d.parent_index == kNoParent || d.parent_index < n, "parent-link", "the loader returned a tree whose node %u has parent %u of %u nodes", i, d.parent_index, n);
      for(uint32_t k : d.daughter_indices) SIM_CHECK(k < n, "daughter-link", "the loader returned a tree whose node %u has daughter %u of %u nodes", i, k, n);
    }
    for(uint32_t i = 0; i < n; ++i) {
      int ref = 0; uint32_t p = T.tree[i]->parent_index; while(p != kNoParent && ref <= (int)n) { ++ref; p = T.tree[p]->parent_index; }
      bool raised = false; int dep = -1; { sim::StepGuard g(2000000, "asking a node for its depth"); try { dep = sim::choose(2) ? T.depth(i) : T.tree[i]->depth(T); } catch(std::exception const&) { raised = true; } }
      if(ref <= (int)n) SIM_CHECK(!raised && dep == ref, "depth", "depth of node %u %s%d, expected %d", i, raised ? "raised " : "is ", dep, ref); else sim::probe(raised ? "cycle-raised" : "cycle-returned");
    }
  }
}
void run_damage() {
  World w; make(w, 3, sim::chance(0.1) ? 16 : 4, false); std::string base = sim::scratch() + "/events", file = base + ".siren_events"; sim::disk_reset();
  bool legacy = sim::choose(3) == 1, damaged = false, structural = false; std::vector<std::shared_ptr<MTree>> mt; std::vector<std::shared_ptr<LTree>> lt; std::string what;
  if(!legacy) {
    std::map<int, std::shared_ptr<MTree>> seen;
    for(size_t i = 0; i < w.trees.size(); ++i) {
      auto& slot = seen[w.of[i]];
      if(!slot) { slot = std::make_shared<MTree>(); Model& m = w.models[w.of[i]]; slot->header.event_number = m.head.event_number; slot->header.weights = m.head.weights; slot->header.provenance = m.head.provenance;
        for(size_t j = 0; j < m.nodes.size(); ++j) { auto d = std::make_shared<MDatum>(); d->record = m.nodes[j].rec; d->node_id = (uint32_t)j; d->parent_index = m.nodes[j].parent < 0 ? kNoParent : (uint32_t)m.nodes[j].parent; d->daughter_indices = m.nodes[j].daughters; slot->tree.push_back(d); } }
      mt.push_back(slot);
    }
    uint32_t nd = sim::choose(4); // damage to node numbers and links
    for(uint32_t k = 0; k < nd && !mt.empty(); ++k) {
      auto& T = mt[sim::choose((uint32_t)mt.size())]; if(T->tree.empty()) continue; uint32_t i = sim::choose((uint32_t)T->tree.size()), n = (uint32_t)T->tree.size(); auto d = T->tree[i]; if(!d) continue; damaged = true;
      switch(sim::choose(6)) {
        case 0: d->node_id = bad_index(d->node_id, n, i); what = "node number"; break;
        case 1: d->parent_index = bad_index(d->parent_index, n, i); what = "parent link"; break;
        case 2: if(d->daughter_indices.empty()) d->daughter_indices.push_back(0); d->daughter_indices[sim::choose((uint32_t)d->daughter_indices.size())] = bad_index(i, n, i); what = "daughter link"; break;
        case 3: T->tree[i] = nullptr; what = "missing node"; break;
        case 4: T->tree[i] = T->tree[sim::choose(n)]; what = "duplicated node"; break;
        default: T->tree.erase(T->tree.begin() + i); what = "lost node"; break;
      }
      sim::fault(("damaged " + what).c_str());
    }
  } else {
    std::map<int, std::shared_ptr<LTree>> seen; w.trees.size();
    for(size_t i = 0; i < w.trees.size(); ++i) {
      auto& slot = seen[w.of[i]];
      if(!slot) { slot = std::make_shared<LTree>(); Model& m = w.models[w.of[i]]; m.head = InteractionTreeHeader();
        for(auto& nd : m.nodes) { auto d = std::make_shared<LDatum>(); d->record = nd.rec; if(nd.parent >= 0) { d->parent = slot->tree[nd.parent]; slot->tree[nd.parent]->daughters.push_back(d); } slot->tree.push_back(d); } }
      lt.push_back(slot);
    }
    sim::probe("legacy-file");
    uint32_t nd = sim::choose(4);
    for(uint32_t k = 0; k < nd && !lt.empty(); ++k) {
      auto& T = lt[sim::choose((uint32_t)lt.size())]; if(T->tree.empty()) continue; uint32_t n = (uint32_t)T->tree.size(), i = sim::choose(n); auto d = T->tree[i]; if(!d) continue; damaged = true;
      switch(sim::choose(6)) {
        case 0: d->parent = sim::choose(2) ? T->tree[sim::choose(n)] : nullptr; what = "parent link"; break;
        case 1: d->daughters.push_back(T->tree[sim::choose(n)]); what = "daughter link"; break;
        case 2: T->tree[i] = nullptr; what = "missing node"; break;
        case 3: T->tree[i] = T->tree[sim::choose(n)]; what = "duplicated node"; break;
        case 4: T->tree.erase(T->tree.begin() + i); what = "lost node"; break;
        default: if(!d->daughters.empty()) d->daughters.erase(d->daughters.begin() + sim::choose((uint32_t)d->daughters.size())); d->daughters.push_back(nullptr); what = "daughter link"; break;
      }
      sim::fault(("damaged legacy " + what).c_str());
    }
  }
  RoleOut ar; if(legacy) ar(lt); else ar(mt);
  std::string b = ar.bytes;
  // damage to the bytes
  if(!b.empty() && sim::chance(0.5)) {
    std::vector<bool> st(b.size(), false); for(auto& s : ar.structural) for(size_t k = 0; k < s.second; ++k) st[s.first + k] = true;
    uint32_t nf = 1 + (uint32_t)sim::log_uniform(6); bool any = sim::choose(4) == 1;
    for(uint32_t k = 0; k < nf; ++k) {
      size_t p = sim::choose((uint32_t)b.size()); if(!any && st[p]) continue;
      char o = b[p]; switch(sim::choose(3)) { case 0: b[p] ^= (char)(1u << sim::choose(8)); break; case 1: b[p] = 0; break; default: b[p] = (char)0xff; } if(b[p] != o) { damaged = true; if(st[p]) structural = true; sim::fault(st[p] ? "byte-damage structural" : "byte-damage"); }
    }
    if(any && sim::choose(3) == 1) { size_t p = sim::choose((uint32_t)b.size()), l = 1 + sim::choose(64); if(sim::choose(2)) { b.erase(p, l); sim::fault("block-lost"); } else { b.insert(p, b.substr(p, l)); sim::fault("block-duplicated"); } damaged = structural = true; }
  }
  if(sim::chance(0.2) && !b.empty()) { b.resize(sim::choose((uint32_t)b.size())); damaged = true; sim::fault("truncation"); }
  else if(sim::chance(0.1)) { b.append(1 + sim::choose(40), (char)sim::choose(256)); sim::probe("trailing-bytes"); }
  sim::spit(file, b);
  sim::log("%s file of %s, %zu bytes, %s", legacy ? "legacy" : "current", describe(w).c_str(), b.size(), damaged ? structural ? "damaged structure" : "damaged" : "intact");
  sim::context("loading a %s event file with damage to %s", legacy ? "legacy" : "current", structural ? "archive structure words (lengths, object numbers, versions)" : damaged ? "values, node numbers or links" : "nothing");
  if(structural) sim::fatal_class("structural-damage");
  sim::alloc_cap(256u << 20);
  Trees got; bool raised = false; std::string ex;
  { sim::StepGuard g(400000000, "loading a damaged event file"); try { got = LoadInteractionTrees(base); } catch(std::exception const& e) { raised = true; ex = e.what(); } }
  sim::alloc_cap(0);
  SIM_CHECK(!raised || damaged, "spurious-failure", "loading an intact %s file raised: %s", legacy ? "legacy" : "current", ex.c_str());
  if(!raised) { if(!damaged) { if(legacy) for(auto& m : w.models) m.head = InteractionTreeHeader(); compare("after loading an intact file", w, got); } if(!structural) inspect(got, damaged); }
  sim::probe(raised ? "raised" : "returned"); sim::log("%s", raised ? "raised" : "returned"); sim::trivial(!damaged);
  sim::state(sim::hash_bytes(b.data(), b.size()));
}
sim::Reg r2("damage", run_damage, "damaged event files");
}
