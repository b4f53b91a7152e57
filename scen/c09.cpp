// C09: every final state an interaction model produces is physically and structurally consistent.
#include "components.h"
#include "SIREN/interactions/DarkNewsCrossSection.h"
#include <algorithm>
#include "SIREN/dataclasses/ParticleMasses.h"
#include "SIREN/utilities/Errors.h"
namespace {
using namespace comp;
struct Model { std::string name; std::shared_ptr<interactions::CrossSection> xs; std::shared_ptr<interactions::Decay> dec; double hnl = 0; };
// what a DarkNews model supplies from Python: masses, the range of Q2 and the cross sections; the sampler is the library's
struct DarkStub : interactions::DarkNewsCrossSection {
  double m3, M = 0.938, a; DarkStub(S& s) : m3(uni(s, 0.02, 0.5)), a(mag(s, 0.02, 5)) {}
  void range(double E, double& lo, double& hi) const { double S2 = M * M + 2 * M * E, W = std::sqrt(S2), e1 = (S2 - M * M) / (2 * W), e3 = (S2 + m3 * m3 - M * M) / (2 * W), p3 = std::sqrt(std::max(0.0, e3 * e3 - m3 * m3)); lo = -m3 * m3 + 2 * e1 * (e3 - p3); hi = -m3 * m3 + 2 * e1 * (e3 + p3); }
  using DarkNewsCrossSection::TotalCrossSection; using DarkNewsCrossSection::DifferentialCrossSection;
  double TotalCrossSection(PT, double E, PT t) const override { if(t != PT::HNucleus) return 0; double lo, hi; range(E, lo, hi); return 1e-40 * (1 / (lo + a) - 1 / (hi + a)); }
  double DifferentialCrossSection(PT, PT t, double E, double Q2) const override { double lo, hi; range(E, lo, hi); return t != PT::HNucleus || Q2 < lo * (1 - 1e-9) || Q2 > hi * (1 + 1e-9) ? 0 : 1e-40 / ((Q2 + a) * (Q2 + a)); }
  double InteractionThreshold(dataclasses::InteractionRecord const&) const override { return m3 * (m3 + 2 * M) / (2 * M); }
  double Q2Min(dataclasses::InteractionRecord const& r) const override { double lo, hi; range(r.primary_momentum[0], lo, hi); return lo * (1 + 1e-9); } double Q2Max(dataclasses::InteractionRecord const& r) const override { double lo, hi; range(r.primary_momentum[0], lo, hi); return hi * (1 - 1e-9); }
  double TargetMass(PT const&) const override { return M; } std::vector<double> SecondaryMasses(std::vector<PT> const&) const override { return {m3, M}; } std::vector<double> SecondaryHelicities(dataclasses::InteractionRecord const&) const override { return {0.5, 0.5}; }
  std::vector<PT> GetPossibleTargets() const override { return {PT::HNucleus}; } std::vector<PT> GetPossibleTargetsFromPrimary(PT) const override { return {PT::HNucleus}; } std::vector<PT> GetPossiblePrimaries() const override { return {PT::NuMu}; }
  std::vector<dataclasses::InteractionSignature> GetPossibleSignatures() const override { dataclasses::InteractionSignature q; q.primary_type = PT::NuMu; q.target_type = PT::HNucleus; q.secondary_types = {PT::N4, PT::HNucleus}; return {q}; } std::vector<dataclasses::InteractionSignature> GetPossibleSignaturesFromParents(PT, PT) const override { return GetPossibleSignatures(); }
};
Model model(S& s, int k) {
  Model m; switch(k) {
    case 0: m.name = "DummyCrossSection"; m.xs = xsec(s, 0); break;
    case 1: m.name = "ElasticScattering"; m.xs = std::make_shared<interactions::ElasticScattering>(); break;
    case 2: { m.name = "HNLDipoleFromTable"; m.xs = xsec(s, 2); m.hnl = std::dynamic_pointer_cast<interactions::HNLDipoleFromTable>(m.xs)->GetHNLMass(); break; }
    case 3: { m.name = "HNLDecay"; double h = coin(s, 0.15) ? uni(s, 1.5, 10) : uni(s, 0.05, 1.5); if(coin(s, 0.15)) { double th[] = {0.0010219979, 0.1061693735, 0.211316749, 0.13497, 0.14008, 0.24523, 0.494188, 0.5993, 0.54786, 0.77526}; h = th[s.below(10)] * (1 + mag(s, 1e-12, 1e-2)); } std::vector<double> u{mag(s, 1e-5, 1e-2), mag(s, 1e-5, 1e-2), mag(s, 1e-5, 1e-2)}; m.hnl = h; m.dec = std::make_shared<interactions::HNLDecay>(h, u, coin(s) ? interactions::HNLDecay::ChiralNature::Dirac : interactions::HNLDecay::ChiralNature::Majorana); break; }
    case 4: { m.name = "HNLDipoleDecay"; double h = uni(s, 0.01, 2); std::vector<double> u{mag(s, 1e-9, 1e-5), mag(s, 1e-9, 1e-5), mag(s, 1e-9, 1e-5)}; m.hnl = h; m.dec = std::make_shared<interactions::HNLDipoleDecay>(h, u, coin(s) ? interactions::HNLDipoleDecay::ChiralNature::Dirac : interactions::HNLDipoleDecay::ChiralNature::Majorana); break; }
    case 5: m.name = "ElectroweakDecay"; m.dec = std::make_shared<interactions::ElectroweakDecay>(std::set<PT>{PT::WPlus, PT::WMinus, PT::Z0}); break;
    case 6: m.name = "CharmMesonDecay"; m.dec = std::make_shared<interactions::CharmMesonDecay>(); break;
    case 8: m.name = "DarkNewsCrossSection"; m.xs = std::make_shared<DarkStub>(s); break;
    default: m.name = "CharmMesonDecay3Body"; m.dec = std::make_shared<interactions::CharmMesonDecay3Body>(); break;
  } return m;
}
// the masses a particle of a type may have (GeV, PDG), empty if the type does not say
std::vector<double> known_mass(PT t) {
  switch(std::abs((int)t)) { case 11: return {0.000511}; case 13: return {0.10566}; case 15: return {1.7768}; case 12: case 14: case 16: case 22: return {0}; case 111: return {0.13498}; case 211: return {0.13957}; case 321: return {0.49368, 0.89167}; case 311: return {0.49761, 0.89167}; case 221: return {0.54786}; case 331: return {0.95778}; case 113: return {0.77526}; case 213: return {0.77511}; case 223: return {0.78266}; case 333: return {1.01946}; case 323: return {0.89167}; case 411: return {1.86966}; case 421: return {1.86484}; case 431: return {1.96835}; default: return {}; }
}
bool fin(double x) { return std::isfinite(x); }
void run() {
  int k = (int)sim::choose(8); sim::Stream s = sim::stream(); Model m = model(s, k); sim::context("%s", m.name.c_str()); sim::probe(m.name.c_str());
  std::vector<dataclasses::InteractionSignature> sigs; if(m.xs) sigs = m.xs->GetPossibleSignatures(); else sigs = m.dec->GetPossibleSignatures();
  if(m.xs) for(auto p : m.xs->GetPossiblePrimaries()) for(auto t : m.xs->GetPossibleTargets()) for(auto& q : m.xs->GetPossibleSignaturesFromParents(p, t)) sigs.push_back(q);
  if(m.dec) for(auto p : {PT::N4, PT::N4Bar, PT::WPlus, PT::WMinus, PT::Z0, PT::DPlus, PT::DMinus, PT::D0, PT::D0Bar, PT::DsPlus, PT::DsMinus}) try { for(auto& q : m.dec->GetPossibleSignaturesFromParent(p)) sigs.push_back(q); } catch(std::runtime_error const&) {}
  { std::vector<dataclasses::InteractionSignature> ok; for(auto& q : sigs) { if(m.dec) { int a = std::abs((int)q.primary_type); bool own = k == 3 || k == 4 ? a == 5914 : k == 5 ? a == 23 || a == 24 : a == 411 || a == 421 || a == 431; if(!own) continue; dataclasses::InteractionRecord f; f.signature = q; f.primary_mass = m.hnl > 0 ? m.hnl : dataclasses::GetParticleMass(q.primary_type); double wd = 0; try { wd = m.dec->TotalDecayWidth(f); } catch(std::exception const&) {} if(!(wd > 0)) continue; } ok.push_back(q); } sigs = ok; } // kinematically open ones
  if(sigs.empty()) { sim::trivial(true); return; }
  int rounds = 1 + (int)sim::choose(4); auto rnd = std::make_shared<utilities::SIREN_random>(sim::u64() | 1);
  bool ext = sim::chance(0.5); if(ext) sim::rng_extremes(sim::chance(0.5) ? 0.2 : 0.03);
  for(int r = 0; r < rounds; ++r) {
    auto sig = sigs[sim::choose((uint32_t)sigs.size())]; dataclasses::InteractionRecord rec; sim::Stream q = sim::stream();
    if(k <= 4 && k >= 1 && sig.secondary_types.size() == 2 && sim::chance(0.3)) std::swap(sig.secondary_types[0], sig.secondary_types[1]);
    rec.signature = sig; rec.primary_id = dataclasses::ParticleID::GenerateID();
    double mass = 0; if(m.dec) { if(m.hnl > 0) mass = m.hnl; else mass = dataclasses::GetParticleMass(sig.primary_type); }
    double ke = mag(q, 1e-2, 1e4); if(sim::chance(0.1)) ke = mag(q, 1e-6, 1e-2);
    if(k == 2) ke = mag(q, 0.05, 190); if(k == 1) ke = mag(q, 1e-3, 1e3); if(m.dec) ke *= mass;
    double e = mass + ke, p = std::sqrt(ke * (ke + 2 * mass)); auto u = unitv(q); rec.primary_mass = mass; rec.primary_momentum = {e, p * u.GetX(), p * u.GetY(), p * u.GetZ()}; e = std::sqrt(p * p + mass * mass); rec.primary_momentum[0] = e;
    rec.primary_helicity = coin(q) ? 0.5 : -0.5; rec.target_helicity = 0.5; rec.primary_initial_position = {0, 0, 0}; rec.interaction_vertex = {1, 2, 3}; rec.interaction_time = uni(q, 0, 100); rec.primary_initial_time = 0;
    if(m.xs) { int t = (int)sig.target_type; rec.target_mass = t == 11 ? 0.00051099895 : t > 1000000000 ? 0.931494 * ((t / 10) % 1000) : 0.938272; }
    std::string what = m.name; for(auto t : sig.secondary_types) { char b[24]; snprintf(b, sizeof b, " %d", (int)t); what += b; }
    char nb[200]; snprintf(nb, sizeof nb, "; primary %d, mass %.6g, energy %.6g", (int)sig.primary_type, mass, e); what += nb; sim::context("%s", what.c_str());
    dataclasses::CrossSectionDistributionRecord x(rec); double time; bool inj = false; sim::StepGuard guard(3000000000ull, "sampling a final state");
    try { if(m.xs) { m.xs->SampleFinalState(x, rnd); time = m.xs->SampleInteractionTime(x, rnd); } else { m.dec->SampleFinalState(x, rnd); time = m.dec->SampleDecayTime(x, rnd); } if(time != x.GetInteractionTime()) x.SetInteractionTime(time); }
    catch(utilities::InjectionFailure const&) { sim::log("injection failure"); inj = true; } catch(std::exception const& ex) { sim::log("raised"); inj = true; sim::probe("raised"); }
    if(inj) { sim::probe("no final state"); continue; }
    x.Finalize(rec); size_t n = sig.secondary_types.size();
    SIM_CHECK(rec.secondary_ids.size() == n && rec.secondary_masses.size() == n && rec.secondary_momenta.size() == n && rec.secondary_helicities.size() == n && rec.secondary_times.size() == n, "wrong-counts", "%s: the final state does not list one entry per secondary", what.c_str());
    SIM_CHECK(rec.signature == sig && rec.primary_mass == mass, "primary-changed", "%s: sampling changed the primary or the signature", what.c_str());
    std::array<double, 4> tot{{0, 0, 0, 0}};
    for(size_t i = 0; i < n; ++i) {
      auto& P = rec.secondary_momenta[i]; double mm = rec.secondary_masses[i], p2 = P[1] * P[1] + P[2] * P[2] + P[3] * P[3]; int ty = (int)sig.secondary_types[i];
      SIM_CHECK(fin(P[0]) && fin(p2) && fin(mm) && fin(rec.secondary_helicities[i]) && fin(rec.secondary_times[i]), "not-finite", "%s: secondary %d has a mass, momentum, helicity or time that is not finite (E %g, p2 %g, m %g)", what.c_str(), ty, P[0], p2, mm);
      SIM_CHECK(std::fabs(P[0] * P[0] - p2 - mm * mm) <= 1e-7 * (e * e + rec.target_mass * rec.target_mass), "off-shell", "%s: secondary %d is off its mass shell (E %.12g, |p| %.12g, m %.12g)", what.c_str(), ty, P[0], std::sqrt(p2), mm);
      SIM_CHECK(P[0] >= -1e-7 * e && mm >= -1e-9, "negative", "%s: secondary %d has negative energy or mass (E %g, m %g)", what.c_str(), ty, P[0], mm);
      auto km = known_mass(sig.secondary_types[i]); if(!km.empty()) { bool ok = false; for(double z : km) if(std::fabs(mm - z) <= 2e-3 * z + 2e-4 * std::sqrt(1e-6 + e * 1e-4) + 1e-7 * e) ok = true; SIM_CHECK(ok, "wrong-mass", "%s: secondary %d has mass %.9g", what.c_str(), ty, mm); }
      SIM_CHECK((bool)rec.secondary_ids[i], "no-identifier", "%s: secondary %d has no identifier", what.c_str(), ty); for(size_t j = 0; j < i; ++j) SIM_CHECK(!(rec.secondary_ids[i] == rec.secondary_ids[j]), "same-identifier", "%s: two secondaries share an identifier", what.c_str());
      SIM_CHECK(rec.secondary_times[i] == rec.interaction_time, "time", "%s: secondary %d was produced at %g in an interaction at %g", what.c_str(), ty, rec.secondary_times[i], rec.interaction_time);
      for(int c = 0; c < 4; ++c) tot[c] += P[c];
    }
    bool simple = (k == 3 && n == 3 && sig.secondary_types[1] == PT::NuLightBar); // the models whose neutrinos are documented as placeholders
    double want[4] = {e + (m.xs ? rec.target_mass : 0), rec.primary_momentum[1], rec.primary_momentum[2], rec.primary_momentum[3]};
    if(!simple) for(int c = 0; c < 4; ++c) SIM_CHECK(std::fabs(tot[c] - want[c]) <= 1e-7 * want[0] + (k == 1 ? 2e-8 : 0) /* the electron mass of the library is rounded */, "not-conserved", "%s: component %d of the total four-momentum is %.12g after and %.12g before", what.c_str(), c, tot[c], want[c]);
    for(auto& P : rec.secondary_momenta) sim::state(sim::hash_bytes(P.data(), 32));
    sim::log("%s ok", what.c_str());
  }
  sim::rng_extremes(0);
}
sim::Reg r("finalstates", run, "final states sampled on seeded and extreme random streams");
// ---- shapes: what is sampled follows the final-state probability the model declares ------------------------------
// in the model's own density variable: the cosine of the rest-frame angle, the momentum transfer or the inelasticity
void shapes() {
  int k = 1 + (int)sim::choose(8); sim::Stream s = sim::stream(); Model m = model(s, k); sim::context("%s", m.name.c_str()); sim::probe(m.name.c_str()); double dnm = 0; if(k == 8) dnm = std::dynamic_pointer_cast<DarkStub>(m.xs)->m3;
  std::vector<dataclasses::InteractionSignature> sigs; if(m.xs) for(auto p : m.xs->GetPossiblePrimaries()) for(auto t : m.xs->GetPossibleTargets()) for(auto& q : m.xs->GetPossibleSignaturesFromParents(p, t)) sigs.push_back(q);
  if(m.dec) for(auto p : {PT::N4, PT::N4Bar, PT::WPlus, PT::WMinus, PT::Z0, PT::DPlus, PT::DMinus, PT::D0, PT::D0Bar, PT::DsPlus, PT::DsMinus}) { int a = std::abs((int)p); if(!(k == 3 || k == 4 ? a == 5914 : k == 5 ? a == 23 || a == 24 : a == 411 || a == 421 || a == 431)) continue; try { for(auto& q : m.dec->GetPossibleSignaturesFromParent(p)) if(q.secondary_types.size() == (k >= 6 ? 3u : 2u)) { dataclasses::InteractionRecord f; f.signature = q; f.primary_mass = m.hnl > 0 ? m.hnl : dataclasses::GetParticleMass(p); f.primary_momentum = {2 * f.primary_mass, 0, 0, std::sqrt(3.0) * f.primary_mass}; if(m.dec->TotalDecayWidth(f) > 0) sigs.push_back(q); } } catch(std::runtime_error const&) {} }
  if(sigs.empty()) { sim::trivial(true); return; } auto sig = sigs[s.below(sigs.size())]; auto rnd = std::make_shared<utilities::SIREN_random>(sim::u64() | 1); dataclasses::InteractionRecord rec; rec.signature = sig; if((k == 3 || k == 4) && coin(s, 0.3)) std::swap(rec.signature.secondary_types[0], rec.signature.secondary_types[1]);
  double mass = m.dec ? (m.hnl > 0 ? m.hnl : dataclasses::GetParticleMass(sig.primary_type)) : 0, ke = k == 2 ? mag(s, 0.5, 150) : k == 8 ? dnm * (dnm + 2 * 0.938) / (2 * 0.938) * (1 + mag(s, 0.2, 50)) : k == 1 ? mag(s, 1e-2, 100) : mass * mag(s, 0.1, 1000), e = mass + ke, p = std::sqrt(ke * (ke + 2 * mass)); auto u = unitv(s);
  rec.primary_mass = mass; rec.primary_momentum = {std::sqrt(p * p + mass * mass), p * u.GetX(), p * u.GetY(), p * u.GetZ()}; rec.primary_helicity = coin(s) ? 0.5 : -0.5; rec.target_helicity = 0.5; rec.interaction_vertex = {1, 2, 3}; if(m.xs) { int t = (int)sig.target_type; rec.target_mass = t == 11 ? 0.00051099895 : t > 1000000000 ? 0.931494 * ((t / 10) % 1000) : 0.938272; }
  std::string what = m.name; for(auto t : rec.signature.secondary_types) { char b[24]; snprintf(b, sizeof b, " %d", (int)t); what += b; } char nb[200]; snprintf(nb, sizeof nb, "; primary %d, helicity %g, energy %.6g", (int)sig.primary_type, rec.primary_helicity, e); what += nb; sim::context("%s", what.c_str());
  if(m.xs && k != 8 && !(m.xs->TotalCrossSection(rec) > 0)) { sim::trivial(true); return; } // never chosen
  int N = 2000; double reach = 1; /* smallest inelasticity proposed: the sampler's chain is short, so its proposals must not be too wide */ std::map<long, std::vector<std::pair<double, double>>> v;
  for(int i = 0; i < N; ++i) { auto r = rec; dataclasses::CrossSectionDistributionRecord x(r); sim::StepGuard guard(3000000000ull, "sampling a final state"); try { if(m.xs) m.xs->SampleFinalState(x, rnd); else m.dec->SampleFinalState(x, rnd); } catch(std::exception const&) { continue; } x.Finalize(r); double pr; try { pr = m.xs ? m.xs->FinalStateProbability(r) : m.dec->FinalStateProbability(r); } catch(std::exception const&) { sim::trivial(true); return; }
    double q; auto& P = r.secondary_momenta; if(k >= 3 && k <= 5) { auto S0 = P[0]; double g = r.primary_momentum[0] / mass, pl = (S0[1] * u.GetX() + S0[2] * u.GetY() + S0[3] * u.GetZ()), bg = p / mass, pz = g * pl - bg * S0[0], E0 = g * S0[0] - bg * pl, ps = std::sqrt(std::max(0.0, E0 * E0 - r.secondary_masses[0] * r.secondary_masses[0])); if(!(ps > 1e-3 * mass)) { sim::trivial(true); return; } /* too close to threshold to reconstruct the angle */ q = std::max(-1.0, std::min(1.0, pz / ps)); }
    else if(k >= 6) { double d[4]; for(int c = 0; c < 4; ++c) d[c] = r.primary_momentum[c] - P[0][c]; q = d[0] * d[0] - d[1] * d[1] - d[2] * d[2] - d[3] * d[3]; }
    else if(k == 8) { double d[4]; for(int c = 0; c < 4; ++c) d[c] = r.primary_momentum[c] - P[0][c]; q = -(d[0] * d[0] - d[1] * d[1] - d[2] * d[2] - d[3] * d[3]); }
    else { size_t o = 0; for(size_t j = 0; j < P.size(); ++j) { int t = std::abs((int)r.signature.secondary_types[j]); if(k == 1 ? t == 11 : t != 5914) o = j; } q = (P[o][0] - r.secondary_masses[o]) / e; if(k == 2) { double h = r.secondary_masses[1 - o]; reach = std::min(reach, h * h * h * h / (8 * e * e * e * rec.target_mass)); } }
    SIM_CHECK(std::isfinite(pr) && pr >= 0, "probability-not-finite", "%s: a sampled final state has probability %g", what.c_str(), pr); v[k >= 6 && k <= 7 ? std::lround(1e4 * r.secondary_masses[0]) : 0].push_back({q, pr}); }
  size_t all = 0; double sum = 0; bool every = true; for(auto& g : v) all += g.second.size(); if(all < 500) { sim::trivial(true); return; }
  for(auto& gv : v) { auto& w = gv.second; if(w.size() < 300) { every = false; continue; } std::sort(w.begin(), w.end()); std::vector<double> F(w.size(), 0); double peak = 0, lo = w.front().first, hi = w.back().first; for(size_t i = 0; i < w.size(); ++i) { if(i) F[i] = F[i - 1] + 0.5 * (w[i].second + w[i - 1].second) * (w[i].first - w[i - 1].first); peak = std::max(peak, w[i].second * (k == 2 || k == 8 ? w[i].first * std::log(hi / (k == 2 ? std::min(lo, reach) : lo)) : hi - lo)); }
    double T = F.back(), n = w.size(), D = 0; SIM_CHECK(T > 0, "probability-zero", "%s, mass %.9g: the sampled final states have probability zero", what.c_str(), mass); sum += T; if(k != 3 && k != 4 && k != 5 && peak > (k == 2 ? 14 : 6) * T) { sim::probe("density too peaked"); every = false; continue; } for(size_t i = 0; i < w.size(); ++i) D = std::max(D, std::fabs(F[i] / T - (i + 0.5) / n)); sim::probe("frequencies compared"); if(k == 2) sim::probe("frequencies compared: tables"); sim::probe("samples in frequencies", w.size());
    double chain = k == 2 && peak > T ? std::pow(1 - T / peak, 41) : 0; /* distance a chain of 41 independent proposals may keep */ SIM_CHECK((D - 0.02 - chain) * std::sqrt(n) < 3.8, "frequencies", "%s: %zu sampled final states do not follow the final-state probability (largest difference of the distribution functions %.4f)", what.c_str(), w.size(), D); sim::state(sim::hash_bytes(&D, 8)); }
  if(every && k != 2) SIM_CHECK(std::fabs(sum - 1) < 0.05, "probability-not-normalised", "%s: the final-state probability integrates to %.4f over the sampled final states", what.c_str(), sum);
}
sim::Reg r2("shapes", shapes, "final states of one interaction against its final-state probability");
}
