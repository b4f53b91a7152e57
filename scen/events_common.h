// Random event records and trees, and a bitwise comparison that does not rely on the library's operator==.
#pragma once
#include "sim.h"
#include <cmath>
#include <limits>
#include <memory>
#include <map>
#include "SIREN/dataclasses/InteractionTree.h"
#include "SIREN/dataclasses/ParticleType.h"
namespace ev {
using namespace siren::dataclasses;
inline double num(sim::Stream& s) {
  switch(s.below(12)) { case 0: return 0; case 1: return -0.0; case 2: return std::numeric_limits<double>::infinity(); case 3: return std::nan(""); case 4: return std::numeric_limits<double>::denorm_min() * (1 + s.below(9)); case 5: return -1.7976931348623157e308; case 6: return (double)s.below(100); default: { int e = (int)s.below(80); double m = s.unit(); return std::ldexp(m * 2 - 1, e - 40); } }
}
inline ParticleType ptype(sim::Stream& s) { switch(s.below(6)) { case 0: return (ParticleType)(int32_t)s.next(); case 1: return ParticleType::unknown; case 2: return ParticleType::NuMu; case 3: return (ParticleType)1000080160; case 4: return ParticleType::MuMinus; default: return (ParticleType)(int32_t)s.below(6000); } }
inline ParticleID pid(sim::Stream& s) { if(s.below(4) == 0) return ParticleID(); return ParticleID(s.next(), (int32_t)s.next()); }
inline InteractionRecord record(sim::Stream& s, bool ragged) {
  InteractionRecord r; int n = (int)s.below(5); auto len = [&] { return ragged && s.below(6) == 0 ? (int)s.below(4) : n; };
  r.signature.primary_type = ptype(s); r.signature.target_type = ptype(s); for(int k = len(); k > 0; --k) r.signature.secondary_types.push_back(ptype(s));
  r.primary_id = pid(s); for(auto& x : r.primary_initial_position) x = num(s); r.primary_initial_time = num(s); r.primary_mass = num(s); for(auto& x : r.primary_momentum) x = num(s); r.primary_helicity = num(s);
  r.target_id = pid(s); r.target_mass = num(s); r.target_helicity = num(s); for(auto& x : r.interaction_vertex) x = num(s); r.interaction_time = num(s);
  for(int k = len(); k > 0; --k) r.secondary_ids.push_back(pid(s)); for(int k = len(); k > 0; --k) r.secondary_masses.push_back(num(s)); for(int k = len(); k > 0; --k) r.secondary_momenta.push_back({num(s), num(s), num(s), num(s)});
  for(int k = len(); k > 0; --k) r.secondary_helicities.push_back(num(s)); for(int k = len(); k > 0; --k) r.secondary_times.push_back(num(s));
  for(int k = (int)s.below(4); k > 0; --k) { std::string n; for(int j = (int)s.below(12); j > 0; --j) n += (char)(s.below(5) ? 'a' + s.below(26) : s.below(256)); r.interaction_parameters[n] = num(s); }
  return r;
}
inline InteractionTreeHeader header(sim::Stream& s) {
  InteractionTreeHeader h; h.event_number = s.below(3) ? s.below(1000) : s.next(); for(int k = (int)s.below(4); k > 0; --k) h.weights.push_back(num(s));
  for(int k = (int)s.below(4); k > 0; --k) { std::string a, b; for(int j = (int)s.below(10); j > 0; --j) a += (char)s.below(256); for(int j = (int)s.below(40); j > 0; --j) b += (char)(32 + s.below(90)); h.provenance[a] = b; }
  return h;
}
inline bool eq(double a, double b) { return memcmp(&a, &b, 8) == 0; }
template<class T> bool eqv(T const& a, T const& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); ++i) if(!eq(a[i], b[i])) return false; return true; }
inline bool eq(ParticleID const& a, ParticleID const& b) { return a.IsSet() == b.IsSet() && a.GetMajorID() == b.GetMajorID() && a.GetMinorID() == b.GetMinorID(); }
inline const char* diff(InteractionRecord const& a, InteractionRecord const& b) {
  if(a.signature.primary_type != b.signature.primary_type) return "primary type"; if(a.signature.target_type != b.signature.target_type) return "target type"; if(a.signature.secondary_types != b.signature.secondary_types) return "secondary types";
  if(!eq(a.primary_id, b.primary_id)) return "primary id"; if(!eqv(a.primary_initial_position, b.primary_initial_position)) return "primary initial position"; if(!eq(a.primary_initial_time, b.primary_initial_time)) return "primary initial time";
  if(!eq(a.primary_mass, b.primary_mass)) return "primary mass"; if(!eqv(a.primary_momentum, b.primary_momentum)) return "primary momentum"; if(!eq(a.primary_helicity, b.primary_helicity)) return "primary helicity";
  if(!eq(a.target_id, b.target_id)) return "target id"; if(!eq(a.target_mass, b.target_mass)) return "target mass"; if(!eq(a.target_helicity, b.target_helicity)) return "target helicity";
  if(!eqv(a.interaction_vertex, b.interaction_vertex)) return "interaction vertex"; if(!eq(a.interaction_time, b.interaction_time)) return "interaction time";
  if(a.secondary_ids.size() != b.secondary_ids.size()) return "secondary ids"; for(size_t i = 0; i < a.secondary_ids.size(); ++i) if(!eq(a.secondary_ids[i], b.secondary_ids[i])) return "secondary ids";
  if(!eqv(a.secondary_masses, b.secondary_masses)) return "secondary masses"; if(a.secondary_momenta.size() != b.secondary_momenta.size()) return "secondary momenta"; for(size_t i = 0; i < a.secondary_momenta.size(); ++i) if(!eqv(a.secondary_momenta[i], b.secondary_momenta[i])) return "secondary momenta";
  if(!eqv(a.secondary_helicities, b.secondary_helicities)) return "secondary helicities"; if(!eqv(a.secondary_times, b.secondary_times)) return "secondary times";
  if(a.interaction_parameters.size() != b.interaction_parameters.size()) return "interaction parameters"; for(auto i = a.interaction_parameters.begin(), j = b.interaction_parameters.begin(); i != a.interaction_parameters.end(); ++i, ++j) if(i->first != j->first || !eq(i->second, j->second)) return "interaction parameters";
  return nullptr;
}
inline const char* diff(InteractionTreeHeader const& a, InteractionTreeHeader const& b) { if(a.event_number != b.event_number) return "event number"; if(!eqv(a.weights, b.weights)) return "header weights"; if(a.provenance != b.provenance) return "provenance"; return nullptr; }
// reference model of a tree: plain data
struct Node { InteractionRecord rec; int parent; std::vector<uint32_t> daughters; };
struct Model { std::vector<Node> nodes; InteractionTreeHeader head; };
inline void check_tree(const char* when, InteractionTree const& t, Model const& m) {
  SIM_CHECK(t.tree.size() == m.nodes.size(), "tree-size", "%s: tree has %zu nodes instead of %zu", when, t.tree.size(), m.nodes.size());
  if(const char* d = diff(t.header, m.head)) sim::fail("header-differs", "%s: %s differs", when, d);
  for(size_t i = 0; i < m.nodes.size(); ++i) {
    SIM_CHECK(t.tree[i] != nullptr, "null-node", "%s: node %zu is null", when, i); auto& n = *t.tree[i]; auto& r = m.nodes[i];
    SIM_CHECK(n.node_id == i, "node-id", "%s: node at position %zu has number %u", when, i, n.node_id);
    SIM_CHECK(n.parent_index == (r.parent < 0 ? kNoParent : (uint32_t)r.parent), "parent-link", "%s: parent of node %zu is %u instead of %d", when, i, n.parent_index, r.parent);
    SIM_CHECK(n.daughter_indices == r.daughters, "daughter-link", "%s: node %zu has %zu daughters (expected %zu) or they differ in order", when, i, n.daughter_indices.size(), r.daughters.size());
    if(const char* d = diff(n.record, r.rec)) sim::fail("record-differs", "%s: %s of node %zu differs", when, d, i);
  }
}
inline int ref_depth(Model const& m, int i) { int d = 0; while(m.nodes[i].parent >= 0) { i = m.nodes[i].parent; ++d; } return d; }
inline std::shared_ptr<InteractionTree> build(Model& m, uint32_t maxn, bool ragged) {
  sim::Stream s = sim::stream(); auto t = std::make_shared<InteractionTree>(); m.head = header(s); t->header = m.head;
  uint32_t n = sim::choose(maxn + 1); std::vector<std::shared_ptr<InteractionTreeDatum>> h;
  for(uint32_t i = 0; i < n; ++i) {
    Node nd; nd.rec = record(s, ragged); nd.parent = i == 0 ? -1 : (int)sim::choose(i + 1) - 1; std::shared_ptr<InteractionTreeDatum> par = nd.parent < 0 ? nullptr : h[nd.parent], got;
    switch(sim::choose(3)) {
      case 0: { InteractionRecord r = nd.rec; got = t->add_entry(r, par); break; }
      case 1: { InteractionTreeDatum d(nd.rec); d.node_id = (uint32_t)s.next(); d.parent_index = (uint32_t)s.next(); for(int k = (int)s.below(3); k; --k) d.daughter_indices.push_back((uint32_t)s.next()); got = t->add_entry(d, par); break; }
      default: { auto d = std::make_shared<InteractionTreeDatum>(nd.rec); d->daughter_indices.assign(s.below(3), 7); got = t->add_entry(d, par); SIM_CHECK(got == d, "add-entry", "add_entry returned another node"); }
    }
    SIM_CHECK(got && t->tree.size() == i + 1 && t->tree[i] == got, "add-entry", "add_entry did not append the node it returned");
    if(nd.parent >= 0) m.nodes[nd.parent].daughters.push_back(i);
    m.nodes.push_back(nd); h.push_back(got);
  }
  return t;
}
}
