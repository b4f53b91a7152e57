// C21: event records report the particle they describe, whatever was set, in whatever order, whatever was asked before; comparison of records.
#include "sim.h"
#include <cmath>
#include <memory>
#include <algorithm>
#include <set>
#include <sstream>
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/dataclasses/InteractionTree.h"
#include "SIREN/dataclasses/InteractionSignature.h"
#include "SIREN/dataclasses/DecaySignature.h"
#include "SIREN/dataclasses/Particle.h"
#include "SIREN/utilities/Constants.h"
using namespace siren::dataclasses;
namespace {
typedef std::array<double, 3> V3; typedef std::array<double, 4> V4;
enum Q { MASS, EN, KE, DIR, MOM, LEN, IPOS, VTX, PCA, VD, ID, TI, NQ };
const char* qn[NQ] = {"mass", "energy", "kinetic energy", "direction", "momentum", "length", "initial position", "interaction vertex", "point of closest approach", "vertex distance from closest approach", "initial distance from closest approach", "interaction time"};
inline unsigned B(int q) { return 1u << q; }
struct Truth { double m, E, K, p, len, vd, id, hel, t0, ti, S; V3 dir, mom, ipos, vtx, pca; };
double mag(double lo, double hi) { return std::exp(sim::range(std::log(lo), std::log(hi))); }
V3 unit3() {
  if(sim::chance(0.2)) { V3 v{0, 0, 0}; v[sim::choose(3)] = sim::chance(0.5) ? 1 : -1; return v; }
  double z = sim::range(-1, 1), f = sim::range(0, 2 * M_PI), s = std::sqrt(1 - z * z); V3 v{s * std::cos(f), s * std::sin(f), z};
  double n = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); return {v[0] / n, v[1] / n, v[2] / n};
}
V3 along(V3 a, double s, V3 d) { return {a[0] + s * d[0], a[1] + s * d[1], a[2] + s * d[2]}; }
double norm(V3 a) { return std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }
Truth truth() {
  Truth t; t.m = sim::chance(0.3) ? 0 : mag(1e-4, 1e2); t.p = mag(1e-3, 1e5); if(t.m > 0) t.p = std::max(t.p, 1e-2 * t.m);
  t.E = std::sqrt(t.m * t.m + t.p * t.p); t.K = t.p * t.p / (t.E + t.m); t.dir = unit3(); t.mom = {t.p * t.dir[0], t.p * t.dir[1], t.p * t.dir[2]};
  t.S = mag(1e-2, 1e7); V3 u = unit3(); double d = u[0] * t.dir[0] + u[1] * t.dir[1] + u[2] * t.dir[2]; double r = sim::chance(0.15) ? 0 : t.S * sim::unit();
  V3 perp = along(u, -d, t.dir); double n = norm(perp); if(n < 1e-3) { r = 0; n = 1; } t.pca = {r * perp[0] / n, r * perp[1] / n, r * perp[2] / n};
  t.id = t.S * sim::range(-1, 1); t.len = t.S * sim::range(0.01, 1); t.vd = t.id + t.len; t.ipos = along(t.pca, t.id, t.dir); t.vtx = along(t.pca, t.vd, t.dir);
  t.hel = (int)sim::choose(3) - 1; t.t0 = sim::chance(0.5) ? 0 : sim::range(-1e3, 1e3); t.ti = 0; return t;
}
double flight(double len, double E, double p) { return len / (std::min(1.0, p / E) * siren::utilities::Constants::c); }
// the sets of given quantities from which each quantity follows
bool derivable(int q, unsigned have) {
  if(q != TI && (have & B(q))) return true;
  auto h = [&](std::initializer_list<int> l) { for(int x : l) if(!(have & B(x))) return false; return true; };
  switch(q) {
    case MASS: return h({EN, MOM}) || h({EN, KE});
    case EN: return h({MASS, MOM}) || h({MASS, KE});
    case KE: return h({MASS, EN}) || h({MASS, MOM});
    case DIR: return h({MOM}) || h({IPOS, VTX});
    case MOM: return h({EN, MASS, DIR}) || h({MASS, KE, DIR});
    case LEN: return h({IPOS, VTX}) || h({ID, VD});
    case IPOS: return h({VTX, DIR, LEN}) || h({VTX, DIR, ID, VD}) || h({ID, DIR, PCA});
    case VTX: return h({IPOS, DIR, LEN}) || h({IPOS, DIR, ID, VD}) || h({VD, DIR, PCA});
    case PCA: return h({IPOS, DIR, ID}) || h({VTX, DIR, VD}) || h({IPOS, VTX});
    case VD: return h({ID, LEN}) || h({VTX, DIR}) || h({VTX, IPOS}) || h({PCA, IPOS, DIR, LEN});
    case ID: return h({VD, LEN}) || h({IPOS, DIR}) || h({VTX, IPOS}) || h({PCA, VTX, DIR, LEN});
    case TI: return (have & B(TI)) || (derivable(IPOS, have) && derivable(VTX, have) && derivable(EN, have) && derivable(MASS, have));
  }
  return false;
}
std::string given(unsigned have) { std::string s; for(int q = 0; q < NQ; ++q) if(have & B(q)) s += (s.empty() ? "" : ", ") + std::string(qn[q]); return s.empty() ? "nothing" : s; }
const double R = 1e-9;
bool close(double a, double b, double tol) { return std::abs(a - b) <= tol; }
bool close3(V3 a, V3 b, double tol) { return close(a[0], b[0], tol) && close(a[1], b[1], tol) && close(a[2], b[2], tol); }
bool massok(double m, Truth const& t) { return std::isfinite(m) && m >= -1e-12 * t.E && close(m * m, t.m * t.m, R * t.E * t.E); }
bool momok(V3 p, Truth const& t) { // the magnitude may have been derived from energy and mass
  double n = norm(p); if(!(close(n * n, t.p * t.p, R * t.E * t.E))) return false; return close3(p, t.mom, R * t.E * std::max(1.0, t.E / t.p)); }
double titol(Truth const& t) { return R * (std::abs(t.t0) + std::abs(t.ti) + std::abs(t.ti - t.t0) * (1 + (t.E / t.p) * (t.E / t.p))); }
template<class F> bool attempt(F f) { try { f(); return true; } catch(std::runtime_error const&) { return false; } }
#define WHO(have) given(have).c_str()
void wrong(const char* what, unsigned have, double got, double want) { sim::fail("wrong-quantity", "the record reports %s = %.17g for a particle whose %s is %.17g (given: %s)", what, got, what, want, WHO(have)); }
void chk(const char* what, unsigned have, double got, double want, double tol) { if(!(close(got, want, tol))) wrong(what, have, got, want); }
void chk3(const char* what, unsigned have, V3 g, V3 w, double tol) { for(int i = 0; i < 3; ++i) if(!close(g[i], w[i], tol)) { char b[96]; snprintf(b, sizeof b, "%s component %d", what, i); wrong(b, have, g[i], w[i]); } }
template<class Rec> void ask_kin(Rec const& r, Truth const& t, unsigned have, int q) {
  bool ok = true;
  switch(q) {
    case MASS: ok = attempt([&] { double v = r.GetMass(); if(!massok(v, t)) wrong(qn[q], have, v, t.m); }); break;
    case EN: ok = attempt([&] { chk(qn[q], have, r.GetEnergy(), t.E, R * t.E); }); break;
    case KE: ok = attempt([&] { chk(qn[q], have, r.GetKineticEnergy(), t.K, R * t.E); }); break;
    case DIR: ok = attempt([&] { chk3(qn[q], have, r.GetDirection(), t.dir, 1e-7); }); break;
    case MOM: ok = attempt([&] { V3 v = r.GetThreeMomentum(); if(!momok(v, t)) { chk3(qn[q], have, v, t.mom, R * t.p); wrong("momentum magnitude", have, norm(v), t.p); } }); break;
  }
  if(!ok && derivable(q, have)) sim::fail("not-derived", "the %s follows from what is given but the record refuses it (given: %s)", qn[q], WHO(have));
}
void ask(PrimaryDistributionRecord const& r, Truth const& t, unsigned have, int q) {
  if(q <= MOM) { ask_kin(r, t, have, q); return; }
  bool ok = true; double L = R * t.S * 10;
  switch(q) {
    case LEN: ok = attempt([&] { chk(qn[q], have, r.GetLength(), t.len, L); }); break;
    case IPOS: ok = attempt([&] { chk3(qn[q], have, r.GetInitialPosition(), t.ipos, L); }); break;
    case VTX: ok = attempt([&] { chk3(qn[q], have, r.GetInteractionVertex(), t.vtx, L); }); break;
    case PCA: ok = attempt([&] { chk3(qn[q], have, r.GetPointOfClosestApproach(), t.pca, L); }); break;
    case VD: ok = attempt([&] { chk(qn[q], have, r.GetVertexDistanceFromClosestApproach(), t.vd, L); }); break;
    case ID: ok = attempt([&] { chk(qn[q], have, r.GetInitialDistanceFromClosestApproach(), t.id, L); }); break;
    case TI: ok = attempt([&] { chk(qn[q], have, r.GetInteractionTime(), t.ti, titol(t)); }); break;
  }
  if(!ok && derivable(q, have)) sim::fail("not-derived", "the %s follows from what is given but the record refuses it (given: %s)", qn[q], WHO(have));
}
bool helset_(unsigned x) { return x & 0x10000; }
const unsigned HS = 0x10000, TS = 0x20000; // helicity, initial time given
void give(PrimaryDistributionRecord& r, Truth const& t, int q) {
  switch(q) {
    case MASS: r.SetMass(t.m); break; case EN: r.SetEnergy(t.E); break; case KE: r.SetKineticEnergy(t.K); break; case DIR: r.SetDirection(t.dir); break; case MOM: r.SetThreeMomentum(t.mom); break;
    case LEN: r.SetLength(t.len); break; case IPOS: r.SetInitialPosition(t.ipos); break; case VTX: r.SetInteractionVertex(t.vtx); break; case PCA: r.SetPointOfClosestApproach(t.pca); break;
    case VD: r.SetVertexDistanceFromClosestApproach(t.vd); break; case ID: r.SetInitialDistanceFromClosestApproach(t.id); break; case TI: r.SetInteractionTime(t.ti); break;
  }
}
void settime(Truth& t, unsigned have) { if(have & B(TI)) return; t.ti = ((have & TS) ? t.t0 : 0) + flight(t.len, t.E, t.p); }
const ParticleType types[] = {ParticleType::NuMu, ParticleType::EMinus, ParticleType::N4, ParticleType::PPlus, ParticleType::Gamma};
void primary_history(int len) {
  PrimaryDistributionRecord r(types[sim::choose(5)]); Truth t = truth(); if(t.t0 == 0 && sim::chance(0.5)) t.t0 = 3.25; double t0 = t.t0;
  unsigned have = 0; std::map<std::string, double> par; ParticleID id = r.GetID(); SIM_CHECK(id.IsSet(), "id-not-set", "a new primary record has no identifier");
  unsigned pool = sim::chance(0.4) ? 0xfff : (sim::u32() & 0xfff); int focus = sim::choose(3);
  for(int k = 0; k < len; ++k) {
    switch(sim::choose_w({10, 12, 1, 1, 2, 2, 1, 1, 1, 1, 1})) {
      case 0: { int q = sim::choose(NQ); if(focus == 1) q = sim::choose(DIR + 2); if(!(pool & B(q))) break;
        if(q == TI) { t.ti = sim::range(-1e3, 1e3); } give(r, t, q); have |= B(q); sim::log("give %s", qn[q]); break; }
      case 1: { int q = sim::choose(NQ); settime(t, have); if(!(have & TS)) t.t0 = 0; ask(r, t, have, q); t.t0 = t0; break; }
      case 2: { r.SetFourMomentum({t.E, t.mom[0], t.mom[1], t.mom[2]}); have |= B(EN) | B(MOM); break; }
      case 3: { // the record is used for another particle: everything given is given again
        double ti = t.ti; double told = t.t0; t = truth(); t.t0 = told; if(have & B(TI)) t.ti = ti; std::vector<int> q; for(int i = 0; i < NQ; ++i) if(have & B(i)) q.push_back(i);
        for(size_t i = q.size(); i > 1; --i) std::swap(q[i - 1], q[sim::choose(i)]);
        for(int x : q) give(r, t, x); if(have & HS) r.SetHelicity(t.hel); sim::probe("regiven"); break; }
      case 4: { // finalize what is available into a record with other content
        settime(t, have); if(!(have & TS)) t.t0 = 0; InteractionRecord o; o.primary_mass = -7; o.primary_momentum = {-7, -8, -9, -10}; o.primary_initial_position = {-1, -2, -3}; o.interaction_vertex = {-4, -5, -6}; o.interaction_time = -11; o.primary_helicity = -12; o.primary_initial_time = -13;
        r.FinalizeAvailable(o); SIM_CHECK(o.primary_id == id && o.signature.primary_type == r.GetType(), "wrong-identity", "the finalised record names another particle");
        if(derivable(MASS, have)) { if(!massok(o.primary_mass, t)) wrong("finalised mass", have, o.primary_mass, t.m); } else SIM_CHECK(o.primary_mass == -7 || massok(o.primary_mass, t), "wrong-quantity", "finalising wrote a mass that was not available: %g (given: %s)", o.primary_mass, WHO(have));
        if(derivable(EN, have)) chk("finalised energy", have, o.primary_momentum[0], t.E, R * t.E); else SIM_CHECK(o.primary_momentum[0] == -7 || close(o.primary_momentum[0], t.E, R * t.E), "wrong-quantity", "finalising wrote an energy that was not available: %g (given: %s)", o.primary_momentum[0], WHO(have));
        V3 mm{o.primary_momentum[1], o.primary_momentum[2], o.primary_momentum[3]};
        if(derivable(MOM, have)) { if(!momok(mm, t)) { chk3("finalised momentum", have, mm, t.mom, R * t.p); wrong("finalised momentum magnitude", have, norm(mm), t.p); } } else SIM_CHECK(mm == (V3{-8, -9, -10}) || momok(mm, t), "wrong-quantity", "finalising wrote a momentum that was not available: %g (given: %s)", mm[0], WHO(have));
        double L = R * t.S * 10;
        if(derivable(IPOS, have)) chk3("finalised initial position", have, o.primary_initial_position, t.ipos, L); else SIM_CHECK(o.primary_initial_position == (V3{-1, -2, -3}) || close3(o.primary_initial_position, t.ipos, L), "wrong-quantity", "finalising wrote an initial position that was not available (given: %s)", WHO(have));
        if(derivable(VTX, have)) chk3("finalised interaction vertex", have, o.interaction_vertex, t.vtx, L); else SIM_CHECK(o.interaction_vertex == (V3{-4, -5, -6}) || close3(o.interaction_vertex, t.vtx, L), "wrong-quantity", "finalising wrote a vertex that was not available (given: %s)", WHO(have));
        if(derivable(TI, have)) chk("finalised interaction time", have, o.interaction_time, t.ti, titol(t)); else SIM_CHECK(o.interaction_time == -11 || close(o.interaction_time, t.ti, titol(t)), "wrong-quantity", "finalising wrote an interaction time that was not available: %g (given: %s)", o.interaction_time, WHO(have));
        chk("finalised helicity", have, o.primary_helicity, (have & HS) ? t.hel : 0, 0); chk("finalised initial time", have, o.primary_initial_time, t.t0, 0);
        t.t0 = t0; sim::probe("finalize-available"); break; }
      case 5: { // finalize
        settime(t, have); if(!(have & TS)) t.t0 = 0; InteractionRecord o; o.interaction_parameters["kept"] = 5; bool ok = attempt([&] { r.Finalize(o); });
        bool can = derivable(MASS, have) && derivable(EN, have) && derivable(MOM, have) && derivable(IPOS, have) && derivable(VTX, have) && derivable(TI, have);
        if(can && !ok) sim::fail("not-derived", "the record cannot be finalised although everything follows from what is given (%s)", WHO(have));
        if(ok) {
          double L = R * t.S * 10; V3 mm{o.primary_momentum[1], o.primary_momentum[2], o.primary_momentum[3]};
          SIM_CHECK(o.primary_id == id && o.signature.primary_type == r.GetType(), "wrong-identity", "the finalised record names another particle");
          if(!massok(o.primary_mass, t)) wrong("finalised mass", have, o.primary_mass, t.m);
          chk("finalised energy", have, o.primary_momentum[0], t.E, R * t.E); if(!momok(mm, t)) { chk3("finalised momentum", have, mm, t.mom, R * t.p); wrong("finalised momentum magnitude", have, norm(mm), t.p); }
          chk3("finalised initial position", have, o.primary_initial_position, t.ipos, L); chk3("finalised interaction vertex", have, o.interaction_vertex, t.vtx, L); chk("finalised interaction time", have, o.interaction_time, t.ti, titol(t));
          chk("finalised helicity", have, o.primary_helicity, (have & HS) ? t.hel : 0, 0); chk("finalised initial time", have, o.primary_initial_time, t.t0, 0);
          auto want = par; want["kept"] = par.count("kept") ? par["kept"] : 5; SIM_CHECK(o.interaction_parameters == want, "wrong-parameters", "the finalised record has %zu interaction parameters, expected %zu", o.interaction_parameters.size(), want.size());
          sim::probe("finalized");
        }
        t.t0 = t0; break; }
      case 6: { r.SetHelicity(t.hel); have |= HS; break; }
      case 7: { r.SetInitialTime(t0); have |= TS; break; }
      case 8: { if(sim::chance(0.3)) { std::map<std::string, double> p{{"a", sim::range(-1, 1)}}; r.SetInteractionParameters(p); par = p; } else { std::string n = sim::chance(0.3) ? "kept" : std::string(1, 'a' + sim::choose(4)); double v = sim::range(-1, 1); r.SetInteractionParameter(n, v); par[n] = v; } break; }
      case 9: { // as a particle and back
        Particle p = r.GetParticle(); SIM_CHECK(p.id == id && p.type == r.GetType(), "wrong-identity", "the particle of a record is another one");
        if(derivable(MASS, have)) { if(!massok(p.mass, t)) wrong("particle mass", have, p.mass, t.m); } 
        if(derivable(EN, have) && derivable(MOM, have)) { chk("particle energy", have, p.momentum[0], t.E, R * t.E); V3 mm{p.momentum[1], p.momentum[2], p.momentum[3]}; if(!momok(mm, t)) wrong("particle momentum", have, norm(mm), t.p); }
        if(derivable(IPOS, have)) chk3("particle position", have, p.position, t.ipos, R * t.S * 10);
        if(derivable(LEN, have)) chk("particle length", have, p.length, t.len, R * t.S * 10);
        chk("particle helicity", have, p.helicity, (have & HS) ? t.hel : 0, 0);
        if(sim::chance(0.3)) { bool other = sim::chance(0.3); Particle q(id, r.GetType(), t.m, {t.E, t.mom[0], t.mom[1], t.mom[2]}, t.ipos, t.len, t.hel);
          if(other) { if(sim::chance(0.5)) q.id = ParticleID::GenerateID(); else q.type = ParticleType::K0; q.mass = -1; q.momentum = {1, 2, 3, 4}; q.position = {9, 9, 9}; bool ok = attempt([&] { r.SetParticle(q); }); SIM_CHECK(!ok, "foreign-particle", "a record accepted the values of another particle"); }
          else { r.SetParticle(q); have |= B(MASS) | B(MOM) | B(EN) | B(IPOS) | B(LEN) | HS; sim::probe("set-particle"); } }
        break; }
      case 10: { std::ostringstream s; s << r; SIM_CHECK(!s.str().empty(), "no-text", "a record prints as nothing"); break; }
    }
    (void)helset_;
  }
  sim::state(have);
}
// secondaries of an interaction
void give2(SecondaryParticleRecord& r, Truth const& t, int q) { switch(q) { case MASS: r.SetMass(t.m); break; case EN: r.SetEnergy(t.E); break; case KE: r.SetKineticEnergy(t.K); break; case DIR: r.SetDirection(t.dir); break; case MOM: r.SetThreeMomentum(t.mom); break; } }
void interaction_history(int len) {
  InteractionRecord rec; Truth tp = truth(); rec.signature.primary_type = types[sim::choose(5)]; rec.signature.target_type = types[sim::choose(5)];
  int n = sim::choose(4); for(int i = 0; i < n; ++i) rec.signature.secondary_types.push_back(types[sim::choose(5)]);
  rec.primary_id = ParticleID::GenerateID(); rec.primary_mass = tp.m; rec.primary_momentum = {tp.E, tp.mom[0], tp.mom[1], tp.mom[2]}; rec.primary_helicity = tp.hel; rec.primary_initial_position = tp.ipos; rec.interaction_vertex = tp.vtx; rec.interaction_time = sim::range(-10, 10); rec.primary_initial_time = tp.t0;
  if(sim::chance(0.5)) rec.target_id = ParticleID::GenerateID();
  rec.target_mass = mag(0.1, 100); rec.target_helicity = tp.hel; bool pre = sim::chance(0.3); if(pre) for(int i = 0; i < n; ++i) rec.secondary_ids.push_back(sim::chance(0.5) ? ParticleID::GenerateID() : ParticleID());
  InteractionRecord const orig = rec; CrossSectionDistributionRecord x(rec);
  double ti = rec.interaction_time, tm = rec.target_mass, th = rec.target_helicity; std::map<std::string, double> par; ParticleID tid = x.GetTargetID(); SIM_CHECK(tid.IsSet() && (!rec.target_id || tid == rec.target_id), "wrong-identity", "the target of an interaction lost its identifier");
  std::vector<Truth> t(n); std::vector<unsigned> have(n, 0); std::vector<double> st(n, 0); std::vector<char> sts(n, 0), hs(n, 0); std::vector<ParticleID> ids;
  for(int i = 0; i < n; ++i) { t[i] = truth(); if(sim::chance(0.1)) { t[i].m = std::max(t[i].m, 1e-3); t[i].p = 0; t[i].E = t[i].m; t[i].K = 0; t[i].mom = {0, 0, 0}; } ids.push_back(x.GetSecondaryParticleRecord(i).GetID()); SIM_CHECK(ids[i].IsSet() && (!pre || !rec.secondary_ids[i] || ids[i] == rec.secondary_ids[i]), "wrong-identity", "secondary %d lost its identifier", i); }
  std::vector<unsigned> pool(n); for(auto& p : pool) p = sim::chance(0.5) ? 31 : (sim::u32() & 31);
  for(int k = 0; k < len; ++k) {
    int i = n ? (int)sim::choose(n) : 0;
    switch(sim::choose_w({n ? 12u : 0u, n ? 10u : 0u, n ? 1u : 0u, 1, 1, 1, n ? 1u : 0u, n ? 1u : 0u, 2, 2, n ? 1u : 0u})) {
      case 0: { int q = sim::choose(5); if(!(pool[i] & B(q))) break; give2(x.GetSecondaryParticleRecord(i), t[i], q); have[i] |= B(q); break; }
      case 1: { int q = sim::choose(5); if(t[i].p == 0 && q == DIR && !(have[i] & B(DIR))) break; ask_kin(x.GetSecondaryParticleRecord(i), t[i], have[i], q);
        chk("production time", have[i], x.GetSecondaryParticleRecord(i).GetTime(), sts[i] ? st[i] : ti, 0); chk3("production point", have[i], x.GetSecondaryParticleRecord(i).GetInitialPosition(), orig.interaction_vertex, 0); break; }
      case 2: { x.GetSecondaryParticleRecord(i).SetFourMomentum({t[i].E, t[i].mom[0], t[i].mom[1], t[i].mom[2]}); have[i] |= B(EN) | B(MOM); break; }
      case 3: { ti = sim::range(-10, 10); x.SetInteractionTime(ti); sim::probe("time-override"); break; }
      case 4: { tm = mag(0.1, 100); if(sim::chance(0.5)) x.SetTargetMass(tm); else x.GetTargetMass() = tm; th = (int)sim::choose(3) - 1; if(sim::chance(0.5)) x.SetTargetHelicity(th); else x.GetTargetHelicity() = th; break; }
      case 5: { std::string nm(1, 'a' + sim::choose(3)); double v = sim::range(-1, 1); if(sim::chance(0.2)) { x.SetInteractionParameters({{nm, v}}); par = {{nm, v}}; } else { x.SetInteractionParameter(nm, v); par[nm] = v; } break; }
      case 6: { st[i] = sim::range(-10, 10); sts[i] = 1; x.GetSecondaryParticleRecord(i).SetTime(st[i]); break; }
      case 7: { x.GetSecondaryParticleRecords()[i].SetHelicity(t[i].hel); hs[i] = 1; break; }
      case 8: { chk("interaction time", 0, x.GetInteractionTime(), ti, 0); chk("target mass", 0, x.GetTargetMass(), tm, 0); chk("target helicity", 0, x.GetTargetHelicity(), th, 0); chk("primary mass", 0, x.GetPrimaryMass(), tp.m, 0);
        SIM_CHECK(x.GetPrimaryMomentum() == orig.primary_momentum && x.GetPrimaryInitialPosition() == orig.primary_initial_position && x.GetInteractionVertex() == orig.interaction_vertex && x.GetPrimaryID() == orig.primary_id && x.GetPrimaryHelicity() == orig.primary_helicity && x.GetPrimaryType() == orig.signature.primary_type && x.GetTargetType() == orig.signature.target_type && x.GetTargetID() == tid && x.GetSignature() == orig.signature, "wrong-quantity", "an interaction record reports other values than the interaction it was made from");
        SIM_CHECK(x.GetInteractionParameters() == par, "wrong-parameters", "interaction parameters differ from those set"); break; }
      case 9: { // finalize
        InteractionRecord o = orig; if(sim::chance(0.5)) { o.secondary_masses.assign(n, -1); o.secondary_times.assign(n + 1, -1); } if(sim::chance(0.5)) o.interaction_parameters["z"] = 1; auto want = o.interaction_parameters; for(auto& p : par) want[p.first] = p.second;
        bool can = true; for(int j = 0; j < n; ++j) can = can && derivable(MASS, have[j]) && derivable(EN, have[j]) && derivable(MOM, have[j]);
        bool ok = attempt([&] { x.Finalize(o); }); if(can && !ok) sim::fail("not-derived", "an interaction cannot be finalised although everything follows from what is given");
        if(!can && ok) { int j = 0; for(; j < n; ++j) if(!(derivable(MASS, have[j]) && derivable(EN, have[j]) && derivable(MOM, have[j]))) break; V3 mm{o.secondary_momenta[j][1], o.secondary_momenta[j][2], o.secondary_momenta[j][3]}; SIM_CHECK(massok(o.secondary_masses[j], t[j]) && close(o.secondary_momenta[j][0], t[j].E, R * t[j].E) && (t[j].p == 0 || momok(mm, t[j])), "wrong-quantity", "finalising wrote a secondary that does not follow from what was given (%s)", WHO(have[j])); }
        if(!ok) break; sim::probe("interaction-finalized");
        SIM_CHECK(o.secondary_ids.size() == (size_t)n && o.secondary_masses.size() == (size_t)n && o.secondary_momenta.size() == (size_t)n && o.secondary_helicities.size() == (size_t)n && o.secondary_times.size() == (size_t)n, "wrong-count", "a finalised interaction with %d secondaries has another number of entries", n);
        SIM_CHECK(o.signature == orig.signature && o.primary_id == orig.primary_id && o.primary_momentum == orig.primary_momentum && o.primary_initial_position == orig.primary_initial_position && o.interaction_vertex == orig.interaction_vertex && o.primary_mass == orig.primary_mass, "wrong-quantity", "finalising an interaction changed its primary");
        SIM_CHECK(o.target_id == tid && o.target_mass == tm && o.target_helicity == th, "wrong-quantity", "the finalised target differs from the one set"); chk("finalised interaction time", 0, o.interaction_time, ti, 0);
        SIM_CHECK(o.interaction_parameters == want, "wrong-parameters", "finalised interaction parameters differ from those set");
        for(int j = 0; j < n; ++j) { auto& s = t[j]; V3 mm{o.secondary_momenta[j][1], o.secondary_momenta[j][2], o.secondary_momenta[j][3]};
          SIM_CHECK(o.secondary_ids[j] == ids[j], "wrong-identity", "finalised secondary %d has another identifier", j);
          if(!massok(o.secondary_masses[j], s)) wrong("finalised secondary mass", have[j], o.secondary_masses[j], s.m); chk("finalised secondary energy", have[j], o.secondary_momenta[j][0], s.E, R * s.E);
          if(s.p == 0 ? norm(mm) > 1e-4 * s.E : !momok(mm, s)) wrong("finalised secondary momentum", have[j], norm(mm), s.p);
          chk("finalised secondary helicity", have[j], o.secondary_helicities[j], hs[j] ? s.hel : 0, 0); chk("finalised secondary time", have[j], o.secondary_times[j], sts[j] ? st[j] : ti, 0); }
        // the next generation
        if(n && sim::chance(0.7)) { int j = sim::choose(n); SecondaryDistributionRecord d(o, j); bool rest = norm({o.secondary_momenta[j][1], o.secondary_momenta[j][2], o.secondary_momenta[j][3]}) == 0; 
          SIM_CHECK(d.GetSecondaryIndex() == (size_t)j && d.id == ids[j] && d.type == orig.signature.secondary_types[j] && d.mass == o.secondary_masses[j] && d.momentum == o.secondary_momenta[j] && d.helicity == o.secondary_helicities[j] && d.initial_position == orig.interaction_vertex && d.initial_time == o.secondary_times[j], "wrong-quantity", "a secondary does not continue as the particle its parent produced");
          double L = rest ? 0 : sim::chance(0.1) ? 0 : t[j].len; InteractionRecord c; if(sim::chance(0.3)) c = d.record; else if(sim::chance(0.5)) { c = rec; c.primary_initial_position = {1, 2, 3}; c.interaction_vertex = {4, 5, 6}; c.primary_helicity = 7; c.primary_mass = 8; c.primary_momentum = {9, 1, 2, 3}; c.interaction_time = -4; c.primary_initial_time = -5; }
          if(sim::chance(0.2)) { bool ok2 = attempt([&] { d.Finalize(c); }); SIM_CHECK(!ok2, "not-refused", "a secondary without a length was finalised"); if(sim::chance(0.5)) c = InteractionRecord(); }
          if(sim::chance(0.2)) d.SetLength(L + 1); d.SetLength(L); double mt = rest ? 0 : L == 0 ? 0 : flight(L, o.secondary_momenta[j][0], norm({o.secondary_momenta[j][1], o.secondary_momenta[j][2], o.secondary_momenta[j][3]})); double it = o.secondary_times[j] + mt; if(sim::chance(0.2)) { it = sim::range(0, 5); d.SetInteractionTime(it); mt = 0; }
          chk("length", 0, d.GetLength(), L, 0); d.Finalize(c); V3 w = along(orig.interaction_vertex, L, rest ? V3{0, 0, 0} : t[j].dir);
          chk3("vertex of the next generation", 0, c.interaction_vertex, w, 1e-7 * (tp.S + L)); chk("time of the next vertex", 0, c.interaction_time, it, R * (std::abs(it) + std::abs(mt)));
          SIM_CHECK(c.primary_id == ids[j] && c.primary_momentum == o.secondary_momenta[j] && c.primary_mass == o.secondary_masses[j] && c.primary_initial_position == orig.interaction_vertex && c.primary_helicity == o.secondary_helicities[j] && c.primary_initial_time == o.secondary_times[j] && c.signature.primary_type == orig.signature.secondary_types[j], "wrong-quantity", "a finalised secondary is not the particle its parent produced"); sim::probe(rest ? "next-at-rest" : "next"); }
        break; }
      case 10: { Particle p = x.GetSecondaryParticleRecord(i).GetParticle(); SIM_CHECK(p.id == ids[i], "wrong-identity", "the particle of a secondary is another one"); if(derivable(MASS, have[i]) && !massok(p.mass, t[i])) wrong("particle mass", have[i], p.mass, t[i].m);
        if(derivable(EN, have[i]) && derivable(MOM, have[i])) chk("particle energy", have[i], p.momentum[0], t[i].E, R * t[i].E);
        if(sim::chance(0.4)) { Particle q(ids[i], p.type, t[i].m, {t[i].E, t[i].mom[0], t[i].mom[1], t[i].mom[2]}, t[i].ipos, t[i].len, t[i].hel); bool other = sim::chance(0.3); if(other) q.id = ParticleID::GenerateID(); bool ok = attempt([&] { x.GetSecondaryParticleRecord(i).SetParticle(q); }); SIM_CHECK(ok == !other, "foreign-particle", ok ? "a secondary accepted the values of another particle" : "a secondary refused its own particle"); if(ok) { have[i] |= B(MASS) | B(EN) | B(MOM); hs[i] = 1; } }
        break; }
    }
  }
  for(auto h : have) sim::state(h);
}
void run_records() {
  sim::set_step_limit(200000000, "using records"); int n = 1 + sim::choose(3), len = 4 + (int)sim::log_uniform(60); std::vector<int> kind; for(int i = 0; i < n; ++i) kind.push_back(sim::choose(2));
  auto one = [&](int i) { if(kind[i]) primary_history(len); else interaction_history(len); };
  if(n > 1 && sim::chance(0.6)) { std::vector<std::function<void()>> b; for(int i = 0; i < n; ++i) b.push_back([&one, i] { one(i); }); sim::ThreadOpts o; o.max_gap = 2048; o.race = true; sim::run_threads(b, o); }
  else for(int i = 0; i < n; ++i) one(i);
}
// comparison: equality of all parts, one total order consistent with it
InteractionRecord some_record() {
  InteractionRecord r; auto id = [] { ParticleID i; if(sim::chance(0.7)) i.SetID(sim::choose(2), sim::choose(3)); return i; }; auto num = [] { return (double)sim::choose(3) - 1; };
  r.signature.primary_type = types[sim::choose(2)]; r.signature.target_type = types[sim::choose(2)]; int n = sim::choose(3); for(int i = 0; i < n; ++i) { r.signature.secondary_types.push_back(types[sim::choose(2)]); r.secondary_ids.push_back(id()); r.secondary_masses.push_back(num()); r.secondary_momenta.push_back({num(), num(), num(), num()}); r.secondary_helicities.push_back(num()); r.secondary_times.push_back(num()); }
  r.primary_id = id(); r.target_id = id(); r.primary_initial_position = {num(), num(), num()}; r.primary_initial_time = num(); r.primary_mass = num(); r.primary_momentum = {num(), num(), num(), num()}; r.primary_helicity = num(); r.target_mass = num(); r.target_helicity = num(); r.interaction_vertex = {num(), num(), num()}; r.interaction_time = num(); n = sim::choose(3); for(int i = 0; i < n; ++i) r.interaction_parameters[std::string(1, 'a' + sim::choose(2))] = num();
  return r;
}
const char* vary(InteractionRecord& r) {
  double d = sim::chance(0.5) ? 1 : sim::chance(0.5) ? -1 : 1e-9; auto bump = [&](double& x) { x += d; };
  for(;;) switch(sim::choose(20)) {
    case 0: { auto& x = r.signature.primary_type; x = x == ParticleType::K0 ? ParticleType::PiPlus : ParticleType::K0; } return "primary type"; case 1: { auto& x = r.signature.target_type; x = x == ParticleType::K0 ? ParticleType::PiPlus : ParticleType::K0; } return "target type"; case 2: r.signature.secondary_types.push_back(ParticleType::K0); return "secondary types";
    case 3: r.primary_id.SetID(r.primary_id.GetMajorID() + 1, r.primary_id.GetMinorID()); return "primary id"; case 4: r.target_id.SetID(r.target_id.GetMajorID(), r.target_id.GetMinorID() + 1); return "target id"; case 5: bump(r.primary_initial_position[sim::choose(3)]); return "initial position"; case 6: bump(r.primary_initial_time); return "initial time"; case 7: bump(r.primary_mass); return "primary mass";
    case 8: bump(r.primary_momentum[sim::choose(4)]); return "primary momentum"; case 9: bump(r.primary_helicity); return "primary helicity"; case 10: bump(r.target_mass); return "target mass"; case 11: bump(r.target_helicity); return "target helicity"; case 12: bump(r.interaction_vertex[sim::choose(3)]); return "vertex"; case 13: bump(r.interaction_time); return "interaction time";
    case 14: if(r.secondary_ids.empty()) continue; { auto& x = r.secondary_ids[sim::choose(r.secondary_ids.size())]; x.SetID(x.GetMajorID() + 1, x.GetMinorID()); } return "secondary ids"; case 15: if(r.secondary_masses.empty()) continue; bump(r.secondary_masses[sim::choose(r.secondary_masses.size())]); return "secondary masses"; case 16: if(r.secondary_momenta.empty()) continue; bump(r.secondary_momenta[sim::choose(r.secondary_momenta.size())][sim::choose(4)]); return "secondary momenta";
    case 17: if(r.secondary_helicities.empty()) continue; bump(r.secondary_helicities[sim::choose(r.secondary_helicities.size())]); return "secondary helicities"; case 18: if(r.secondary_times.empty()) continue; bump(r.secondary_times[sim::choose(r.secondary_times.size())]); return "secondary times"; case 19: if(r.interaction_parameters.empty() || sim::chance(0.5)) r.interaction_parameters["zz"] += 1; else bump(r.interaction_parameters.begin()->second); return "interaction parameters";
  }
}
// event trees: equal exactly when header, nodes, links and records are
void compare_trees() {
  auto make = [](std::vector<InteractionRecord> const& r, std::vector<int> const& par, InteractionTreeHeader const& h) { InteractionTree t; t.header = h; for(size_t i = 0; i < r.size(); ++i) { InteractionRecord x = r[i]; t.add_entry(x, par[i] < 0 ? nullptr : t.tree[par[i]]); } return t; };
  std::vector<InteractionRecord> r; std::vector<int> par; int n = sim::choose(5); for(int i = 0; i < n; ++i) { r.push_back(some_record()); par.push_back(i ? (int)sim::choose(i + 1) - 1 : -1); }
  InteractionTreeHeader h; h.event_number = sim::choose(3); for(int k = sim::choose(3); k; --k) h.weights.push_back((double)sim::choose(3)); for(int k = sim::choose(3); k; --k) h.provenance[std::string(1, 'a' + sim::choose(2))] = std::string(1, 'x' + sim::choose(2));
  InteractionTree a = make(r, par, h), b = make(r, par, h); SIM_CHECK(a == b && b == a && a == a, "unequal-copy", "two event trees with the same contents compare different"); std::string w;
  for(bool done = false; !done;) { done = true; switch(sim::choose(8)) {
    case 0: b.header.event_number += 1; w = "event number"; break;
    case 1: if(b.header.weights.empty() || sim::chance(0.4)) b.header.weights.push_back(0); else b.header.weights[sim::choose(b.header.weights.size())] += 1; w = "header weights"; break;
    case 2: if(b.header.provenance.empty() || sim::chance(0.4)) b.header.provenance["q"] = ""; else b.header.provenance.begin()->second += "z"; w = "provenance"; break;
    case 3: if(b.tree.empty()) { done = false; break; } w = std::string("record: ") + vary(b.tree[sim::choose(b.tree.size())]->record); break;
    case 4: { InteractionRecord x = some_record(); b.add_entry(x); w = "number of nodes"; break; }
    case 5: if(n < 2) { done = false; break; } { auto p2 = par; int i = 1 + sim::choose(n - 1); p2[i] = par[i] < 0 ? 0 : -1; b = make(r, p2, h); w = "links"; break; }
    case 6: if(b.tree.empty()) { done = false; break; } b.tree[sim::choose(b.tree.size())]->daughter_indices.push_back(0); w = "daughter links"; break;
    default: if(b.tree.empty()) { done = false; break; } b.tree[sim::choose(b.tree.size())]->parent_index ^= 1; w = "parent link"; break;
  } }
  SIM_CHECK(!(a == b) && !(b == a), "equal-but-different", "event trees that differ in their %s compare equal", w.c_str()); sim::probe("trees");
}
void run_order() {
  if(sim::chance(0.15)) { compare_trees(); return; }
  sim::set_step_limit(200000000, "comparing records"); std::vector<InteractionRecord> v; int n = 2 + sim::choose(6);
  for(int i = 0; i < n; ++i) if(v.empty() || sim::chance(0.4)) v.push_back(some_record()); else { InteractionRecord c = v[sim::choose(v.size())]; InteractionRecord o = c; SIM_CHECK(c == o && !(c < o) && !(o < c), "unequal-copy", "a copy of a record compares different");
    if(sim::chance(0.85)) { const char* w = vary(c); SIM_CHECK(!(c == o) && !(o == c), "equal-but-different", "records that differ in their %s compare equal", w); SIM_CHECK((c < o) != (o < c), "unordered", "records that differ in their %s are not ordered (%d %d)", w, c < o, o < c); } v.push_back(c); }
  for(auto& a : v) for(auto& b : v) { bool e = a == b, l = a < b, g = b < a; SIM_CHECK(e + l + g == 1, "not-total", "two records are equal %d, less %d, greater %d", e, l, g);
    bool se = a.signature == b.signature, sl = a.signature < b.signature, sg = b.signature < a.signature; SIM_CHECK(se + sl + sg == 1 && (a.signature != b.signature) == !se, "not-total", "two signatures are equal %d, less %d, greater %d", se, sl, sg); SIM_CHECK(!(e && !se), "inconsistent", "equal records have different signatures");
    DecaySignature da{a.signature.primary_type, a.signature.secondary_types}, db{b.signature.primary_type, b.signature.secondary_types}; SIM_CHECK((da == db) == (a.signature.primary_type == b.signature.primary_type && a.signature.secondary_types == b.signature.secondary_types), "decay-signature", "decay signatures compare wrongly");
    bool ie = a.primary_id == b.primary_id, il = a.primary_id < b.primary_id, ig = b.primary_id < a.primary_id; SIM_CHECK(ie + il + ig == 1 && (a.primary_id != b.primary_id) == !ie, "not-total", "two identifiers are equal %d, less %d, greater %d", ie, il, ig);
    SIM_CHECK(ie == (a.primary_id.IsSet() == b.primary_id.IsSet() && a.primary_id.GetMajorID() == b.primary_id.GetMajorID() && a.primary_id.GetMinorID() == b.primary_id.GetMinorID()), "id-equality", "identifiers compare wrongly");
    for(auto& c : v) if(l && b < c) SIM_CHECK(a < c, "not-transitive", "the order of records is not transitive"); }
  std::set<InteractionRecord> s(v.begin(), v.end()); size_t distinct = 0; for(size_t i = 0; i < v.size(); ++i) { bool first = true; for(size_t j = 0; j < i; ++j) if(v[j] == v[i]) first = false; distinct += first; } SIM_CHECK(s.size() == distinct, "set-size", "a set of %zu distinct records holds %zu", distinct, s.size());
  for(auto& a : v) { std::ostringstream o; o << a << a.signature << a.primary_id; InteractionRecord c = a; SIM_CHECK(c == a, "unequal-copy", "a record changed when printed"); }
}
sim::Reg r1("records", run_records, "seeded histories of giving and asking for quantities of records, in interleaved threads");
sim::Reg r2("order", run_order, "equality and order of records");
}
