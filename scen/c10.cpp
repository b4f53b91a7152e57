// C10: what a distribution samples lies in its range and follows the density it declares.
#include "components.h"
#include <algorithm>
#include "SIREN/utilities/Errors.h"
namespace {
using namespace comp; typedef std::shared_ptr<utilities::SIREN_random> Rnd; typedef dataclasses::InteractionRecord Rec; typedef std::array<double, 3> A3;
// Kolmogorov-Smirnov: the values are uniform in [0, 1]; the threshold is exceeded by chance once in 10^12 runs
void uniform(std::vector<double> u, const char* name, const char* what, double slack = 0) {
  if(u.size() < 50) return; std::sort(u.begin(), u.end()); double n = (double)u.size(), D = 0; for(size_t i = 0; i < u.size(); ++i) D = std::max(D, std::max(u[i] - (double)i / n, (double)(i + 1) / n - u[i])); sim::probe("frequencies compared"); sim::probe("samples in frequencies", u.size());
  SIM_CHECK((D - slack) * std::sqrt(n) < 3.8, "frequencies", "%s: %s of %zu samples does not follow the declared density (largest difference of the distribution functions %.4f)", name, what, u.size(), D);
}
double clamp01(double x) { return x < 0 ? 0 : x > 1 ? 1 : x; }
Rec rec(double e, math::Vector3D const& d, double mass = 0) { Rec r; r.signature.primary_type = PT::NuMu; r.signature.target_type = PT::Nucleon; double p = std::sqrt(std::max(0.0, e * e - mass * mass)); r.primary_mass = mass; r.primary_momentum = {e, p * d.GetX(), p * d.GetY(), p * d.GetZ()}; r.interaction_vertex = {0, 0, 0}; return r; }
Rnd rnd() { return std::make_shared<utilities::SIREN_random>(sim::u64() | 1); }
// ---- energies --------------------------------------------------------------------------
void powerdraw(S& s) {
  double n = coin(s, 0.2) ? -1 : uni(s, -4, 3), lo = mag(s, 1e-2, 100), hi = lo * (1 + mag(s, 1e-2, 1e4)); bool swap = coin(s, 0.3); char b[120]; snprintf(b, sizeof b, "power-law draw index %.6g in [%g, %g]", n, lo, hi); sim::context("%s", b); sim::log("%s", b); sim::probe("SIREN_random::PowerLaw"); auto R = rnd(); auto draw = [&] { return swap ? R->PowerLaw(hi, lo, n) : R->PowerLaw(lo, hi, n); };
  if(sim::chance(0.5)) sim::rng_extremes(0.3); for(int i = 0; i < 40; ++i) { double e = draw(); SIM_CHECK(std::isfinite(e) && e >= lo * (1 - 1e-9) && e <= hi * (1 + 1e-9), "out-of-range", "%s: drew %.17g", b, e); sim::state(sim::hash_bytes(&e, 8)); } sim::rng_extremes(0);
  std::vector<double> u; for(int i = 0; i < 5000; ++i) { double e = draw(), k = n + 1; u.push_back(clamp01(n == -1 ? std::log(e / lo) / std::log(hi / lo) : std::fabs(k) < 1e-3 ? std::log(e / lo) / std::log(hi / lo) : (std::pow(e, k) - std::pow(lo, k)) / (std::pow(hi, k) - std::pow(lo, k)))); } uniform(u, b, "the value", std::fabs(n + 1) < 1e-3 && n != -1 ? 0.01 : 0);
}
void energies() {
  S s(sim::u64()); if(sim::chance(0.12)) return powerdraw(s); std::shared_ptr<distributions::PrimaryEnergyDistribution> d; double lo = 0, hi = 0, slack = 0; bool sharp = false, freq = true, normed = true; int kind = (int)sim::choose(5); std::string name; char b[160]; std::vector<std::pair<double, double>> anchors;
  switch(kind) {
    case 0: { double g = coin(s, 0.25) ? 1 : coin(s, 0.2) ? 1 + (coin(s) ? 1 : -1) * mag(s, 1e-6, 1e-2) : uni(s, -2, 4); lo = mag(s, 1e-2, 100); hi = lo * (1 + mag(s, 1e-2, 1e4)); if(coin(s, 0.05)) { hi = lo; sharp = true; } auto p = std::make_shared<distributions::PowerLaw>(g, lo, hi); if(coin(s, 0.3)) { double nv = mag(s, 0.1, 10), ne = sharp ? lo : lo + uni(s, 0.01, 0.99) * (hi - lo); p->SetNormalizationAtEnergy(nv, ne); anchors.push_back({ne, nv}); } d = p; snprintf(b, sizeof b, "PowerLaw index %.6g in [%g, %g]", g, lo, hi); break; }
    case 1: { lo = hi = mag(s, 1e-2, 1e4); sharp = true; d = std::make_shared<distributions::Monoenergetic>(lo); snprintf(b, sizeof b, "Monoenergetic %g", lo); break; }
    case 2: { // nodes dense enough that the tabulated inverse resolves the density between them
      std::vector<double> e, f; double x = mag(s, 0.1, 10), w = mag(s, 0.5, 50); int n = 2 + (int)s.below(300); bool flat = n < 100; double v = mag(s, 0.1, 10), sl = uni(s, -2, 2), x0 = x; for(int i = 0; i < n; ++i) { e.push_back(x); f.push_back(flat ? v : v * std::exp(sl * (x - x0) / w)); x += w / n * uni(s, 0.5, 1.5); } bool ph = coin(s), romb = coin(s, 0.6), keepnorm = false; lo = e[0]; hi = e.back();
      if(coin(s, 0.4)) { double l = lo + uni(s, 0.05, 0.3) * (hi - lo), h = lo + uni(s, 0.6, 1) * (hi - lo); lo = l; hi = h; d = std::make_shared<distributions::TabulatedFluxDistribution>(lo, hi, e, f, ph, romb); keepnorm = true; } else { auto t = std::make_shared<distributions::TabulatedFluxDistribution>(e, f, ph, romb); keepnorm = true; if(coin(s, 0.5)) { keepnorm = false; double l0 = lo, h0 = hi; for(int k = 1 + (int)s.below(3); k > 0; --k) { lo = l0 + uni(s, 0, 0.5) * (h0 - l0); hi = l0 + uni(s, 0.6, 1) * (h0 - l0); if(coin(s, 0.2)) { lo = l0; hi = h0; } t->SetEnergyBounds(lo, hi); } } d = t; } slack = flat ? 0.002 : 0.03; if(ph && keepnorm) for(int k = 0; k < 4; ++k) { size_t i = s.below(e.size()); if(e[i] > lo * 1.0001 && e[i] < hi * 0.9999) anchors.push_back({e[i], f[i]}); } snprintf(b, sizeof b, "TabulatedFlux, %d nodes in [%g, %g]", n, lo, hi); break; }
    case 3: { lo = mag(s, 0.05, 1); hi = lo + mag(s, 2, 30); double mu = uni(s, lo, lo + 0.5 * (hi - lo)), sg = (hi - lo) * uni(s, 0.1, 1), A = mag(s, 0.1, 5), l = (hi - lo) * uni(s, 0.2, 2), B = mag(s, 0.01, 5); d = std::make_shared<distributions::ModifiedMoyalPlusExponentialEnergyDistribution>(lo, hi, mu, sg, A, l, B, coin(s)); snprintf(b, sizeof b, "ModifiedMoyalPlusExponential in [%g, %g]", lo, hi); break; }
    default: { d = std::make_shared<distributions::PiDARNuEDistribution>(); lo = 0; hi = 0.1056583745 / 2; snprintf(b, sizeof b, "PiDARNuE"); }
  }
  name = b; sim::context("%s", b); sim::probe(d->Name().c_str()); sim::log("%s", b); auto R = rnd(); auto dir = unitv(s); auto dens = [&](double e) { return d->GenerationProbability(nullptr, nullptr, rec(e, dir)); };
  auto draw = [&]() { dataclasses::PrimaryDistributionRecord q(PT::NuMu); q.SetMass(0); q.SetDirection({dir.GetX(), dir.GetY(), dir.GetZ()}); d->Sample(R, nullptr, nullptr, q); Rec r; q.FinalizeAvailable(r); SIM_CHECK(r.primary_momentum[0] == q.GetEnergy(), "energy-lost", "%s: the sampled energy %.17g is recorded as %.17g", b, q.GetEnergy(), r.primary_momentum[0]); return q.GetEnergy(); };
  double tol = kind == 4 ? 2e-3 * hi : 1e-9 * hi; // the muon mass of the decay spectrum is a constant of the library
  bool ext = sim::chance(0.5); if(ext) sim::rng_extremes(0.3);
  for(int i = 0; i < 40; ++i) { double e = draw(); SIM_CHECK(std::isfinite(e) && e >= lo - tol && e <= hi + tol, "out-of-range", "%s: sampled energy %.17g", b, e); double p = dens(e); SIM_CHECK(std::isfinite(p) && (ext ? p >= 0 : p > 0), "density-of-sample", "%s: the sampled energy %.17g has density %g", b, e, p); sim::state(sim::hash_bytes(&e, 8)); }
  sim::rng_extremes(0);
  for(double e : {lo * 0.99 - 1e-3 * (hi - lo), hi * 1.01 + 1e-3 * (hi - lo), lo * uni(s, 0.1, 0.9), hi * uni(s, 1.1, 10)}) if(e > 0 && (e < lo - tol || e > hi + tol) && !(kind == 0 && sharp)) { double p = dens(e); SIM_CHECK(p == 0, "density-outside", "%s: an energy %g outside the range has density %g", b, e, p); }
  for(auto const& a : anchors) { auto nd = std::dynamic_pointer_cast<distributions::PhysicallyNormalizedDistribution>(d); double got = nd->GetNormalization() * dens(a.first); sim::probe("physical normalisation compared"); SIM_CHECK(nd->IsNormalizationSet() && std::fabs(got - a.second) <= 1e-6 * a.second, "physical-normalisation", "%s: normalised to %.9g at energy %.9g, normalisation times density there is %.9g", b, a.second, a.first, got); }
  if(sharp || !freq) return;
  // the density integrates to one; its distribution function
  int M = 3000; std::vector<double> x(M + 1), F(M + 1, 0); bool lg = lo > 0 && hi > 20 * lo; double in = 1e-9; for(int i = 0; i <= M; ++i) { double t = in + (1 - 2 * in) * i / M; x[i] = lg ? lo * std::pow(hi / lo, t) : lo + (hi - lo) * t; } double prev = 0, peak = 0;
  for(int i = 0; i <= M; ++i) { double p = dens(x[i]); SIM_CHECK(std::isfinite(p) && p >= 0, "density-not-finite", "%s: density %g at %.17g", b, p, x[i]); if(i) { double c = 0.5 * (p + prev) * (x[i] - x[i - 1]); peak = std::max(peak, c); F[i] = F[i - 1] + c; } prev = p; }
  if(peak > 0.02 * F[M]) return; if(normed) SIM_CHECK(std::fabs(F[M] - 1) < (kind == 4 ? 2e-2 : 5e-3), "density-not-normalised", "%s: the density integrates to %.6f", b, F[M]);
  if(!sim::chance(0.5)) return; if(kind == 3) { double mx = 0; for(double q : x) mx = std::max(mx, dens(q)); if(mx * (hi - lo) > 6) return; }
  int N = sim::chance(0.3) ? 20000 : 3000; if(kind == 3) N = 2000; std::vector<double> u; for(int i = 0; i < N; ++i) { double e = draw(); size_t k = std::upper_bound(x.begin(), x.end(), e) - x.begin(); if(k == 0) u.push_back(0); else if(k > (size_t)M) u.push_back(1); else u.push_back(clamp01((F[k - 1] + (F[k] - F[k - 1]) * (e - x[k - 1]) / (x[k] - x[k - 1])) / F[M])); }
  uniform(u, b, "the energy", slack + 0.002);
}
sim::Reg r1("energies", energies, "energy distributions on seeded and extreme streams");
// ---- directions ------------------------------------------------------------------------
void directions() {
  S s(sim::u64()); int kind = (int)sim::choose(3); math::Vector3D ax = unitv(s); if(coin(s, 0.4)) { double v[3] = {0, 0, 0}; v[s.below(3)] = coin(s) ? 1 : -1; ax = math::Vector3D(v[0], v[1], v[2]); if(coin(s, 0.3)) { auto w = unitv(s); ax = ax + w * mag(s, 1e-12, 1e-3); ax.normalize(); } }
  double sc = coin(s, 0.3) ? mag(s, 1e-3, 1e3) : 1, op = coin(s, 0.2) ? mag(s, 1e-4, 0.1) : coin(s, 0.1) ? M_PI : uni(s, 0.1, 3.1); std::shared_ptr<distributions::PrimaryDirectionDistribution> d; char b[160];
  if(kind == 0) { d = std::make_shared<distributions::Cone>(ax * sc, op); snprintf(b, sizeof b, "Cone of %.6g around (%.6g, %.6g, %.6g)*%g", op, ax.GetX(), ax.GetY(), ax.GetZ(), sc); } else if(kind == 1) { d = std::make_shared<distributions::FixedDirection>(ax * (sc = 1)); snprintf(b, sizeof b, "FixedDirection (%.6g, %.6g, %.6g)", ax.GetX(), ax.GetY(), ax.GetZ()); } else { d = std::make_shared<distributions::IsotropicDirection>(); snprintf(b, sizeof b, "IsotropicDirection"); op = M_PI; }
  sim::context("%s", b); sim::probe(d->Name().c_str()); sim::log("%s", b); auto R = rnd(); double E = mag(s, 0.1, 100);
  auto draw = [&]() { dataclasses::PrimaryDistributionRecord q(PT::NuMu); q.SetMass(0); q.SetEnergy(E); d->Sample(R, nullptr, nullptr, q); auto v = q.GetDirection(); return math::Vector3D(v[0], v[1], v[2]); };
  auto dens = [&](math::Vector3D const& v) { return d->GenerationProbability(nullptr, nullptr, rec(E, v)); }; double want = kind == 1 ? 1 : 1 / (2 * M_PI * (1 - std::cos(op)));
  bool ext = sim::chance(0.5); if(ext) sim::rng_extremes(0.3);
  for(int i = 0; i < 40; ++i) { auto v = draw(); double m = v.magnitude(), c = math::scalar_product(v, ax), ang = std::atan2(math::cross_product(v, ax).magnitude(), c); SIM_CHECK(std::isfinite(m) && std::fabs(m - 1) < 1e-9, "not-a-direction", "%s: sampled (%g, %g, %g)", b, v.GetX(), v.GetY(), v.GetZ()); if(kind == 0) SIM_CHECK(ang <= op + 1e-7, "out-of-range", "%s: sampled a direction %.9g from the axis", b, ang); if(kind == 1) SIM_CHECK(ang < 1e-7, "out-of-range", "%s: sampled a direction %.9g from the fixed one", b, ang); double p = dens(v); bool edge = kind == 0 && ang > op * (1 - 1e-6) - 3e-8; SIM_CHECK((edge && p == 0) || std::fabs(p - want) <= 1e-7 * want, "density-of-sample", "%s: a direction %.9g from the axis has density %g instead of %g", b, ang, p, want); double q = v.GetX(); sim::state(sim::hash_bytes(&q, 8)); }
  sim::rng_extremes(0);
  for(int i = 0; i < 5; ++i) { auto v = unitv(s); double ang = std::atan2(math::cross_product(v, ax).magnitude(), math::scalar_product(v, ax)), p = dens(v); if(kind == 0 && ang > op + 1e-6) SIM_CHECK(p == 0, "density-outside", "%s: a direction %g from the axis has density %g", b, ang, p); if(kind == 0 && ang < op - 1e-6) SIM_CHECK(std::fabs(p - want) <= 1e-7 * want, "density-inside", "%s: a direction %g from the axis has density %g instead of %g", b, ang, p, want); if(kind == 1 && ang > 1e-3) SIM_CHECK(p == 0, "density-outside", "%s: a direction %g away has density %g", b, ang, p); }
  if(kind == 1 || !sim::chance(0.5)) return; math::Vector3D e1 = math::cross_product(ax, std::fabs(ax.GetX()) < 0.9 ? math::Vector3D(1, 0, 0) : math::Vector3D(0, 1, 0)); e1.normalize(); math::Vector3D e2 = math::cross_product(ax, e1); std::vector<double> uc, up; int N = sim::chance(0.3) ? 20000 : 3000;
  for(int i = 0; i < N; ++i) { auto v = draw(); double ct = math::scalar_product(v, ax), st = math::cross_product(v, ax).magnitude(), omc = ct > 0 ? st * st / (1 + ct) : 1 - ct; uc.push_back(clamp01(omc / (1 - std::cos(op)))); up.push_back(clamp01((std::atan2(math::scalar_product(v, e2), math::scalar_product(v, e1)) + M_PI) / (2 * M_PI))); }
  uniform(uc, b, "the polar angle"); uniform(up, b, "the azimuth");
}
sim::Reg r2("directions", directions, "direction distributions on seeded and extreme streams");
// ---- energy and zenith -----------------------------------------------------------------
void flux2d() {
  S s(sim::u64()); bool lg = coin(s); int n = lg ? 4 + (int)s.below(20) : 5 + (int)s.below(25), m = 3 + (int)s.below(8); double x0 = mag(s, 0.1, 10), w = lg ? mag(s, 2, coin(s, 0.3) ? 1e6 : 1e3) : mag(s, 0.5, 20), v = mag(s, 1e-12, 1e3), g = lg ? uni(s, coin(s, 0.3) ? -3.7 : -2, 0.5) : uni(s, -1, 1), c1 = uni(s, -0.6, 0.6), c2 = uni(s, -0.3, 0.3); std::vector<double> e, z, f;
  for(int i = 0; i < n; ++i) for(int j = 0; j < m; ++j) { double t = (double)i / (n - 1), x = lg ? x0 * std::pow(w, t) : x0 + x0 * w * t, cz = -1 + 2.0 * j / (m - 1); e.push_back(x); z.push_back(cz); f.push_back(v * (lg ? std::pow(x / x0, g) : std::exp(g * t)) * (1 + c1 * cz + c2 * (cz * cz - 1. / 3))); }
  double lo = e.front(), hi = e.back(), za = -1, zb = 1; bool ph = coin(s), moved = false; std::shared_ptr<distributions::Tabulated2DFluxDistribution> d; auto sub = [&](double& a, double& b2, bool l) { double u1 = uni(s, 0.05, 0.4), u2 = uni(s, 0.6, 0.95), A = a, B = b2; a = l ? A * std::pow(B / A, u1) : A + u1 * (B - A); b2 = l ? A * std::pow(B / A, u2) : A + u2 * (B - A); };
  int how = (int)s.below(4); if(how == 0) d = std::make_shared<distributions::Tabulated2DFluxDistribution>(e, z, f, ph); else if(how == 1) { sub(lo, hi, lg); d = std::make_shared<distributions::Tabulated2DFluxDistribution>(lo, hi, e, z, f, ph); } else if(how == 2) { sub(lo, hi, lg); sub(za, zb, false); d = std::make_shared<distributions::Tabulated2DFluxDistribution>(lo, hi, za, zb, e, z, f, ph); }
  else { d = std::make_shared<distributions::Tabulated2DFluxDistribution>(e, z, f, ph); if(coin(s)) { auto R0 = rnd(); for(int i = 0; i < 3; ++i) { dataclasses::PrimaryDistributionRecord q(PT::NuMu); q.SetMass(0); d->Sample(R0, nullptr, nullptr, q); } } if(coin(s)) { sub(lo, hi, lg); d->SetEnergyBounds(lo, hi); moved = true; } if(coin(s)) { sub(za, zb, false); d->SetCosZenithBounds(za, zb); moved = true; } }
  char b[200]; snprintf(b, sizeof b, "Tabulated2DFlux (%s energies) in [%g, %g] x [%.4g, %.4g]", lg ? "logarithmic" : "linear", lo, hi, za, zb); sim::context("%s", b); sim::log("%s", b); sim::probe(lg ? "flux over logarithmic energy and zenith" : "flux over energy and zenith"); auto R = rnd();
  auto at = [&](double E, double cz) { double st = std::sqrt(std::max(0.0, 1 - cz * cz)), a = 1.0; return d->GenerationProbability(nullptr, nullptr, rec(E, math::Vector3D(st * std::cos(a), st * std::sin(a), cz))); };
  auto draw = [&](math::Vector3D& dir) { dataclasses::PrimaryDistributionRecord q(PT::NuMu); q.SetMass(0); d->Sample(R, nullptr, nullptr, q); auto u = q.GetDirection(); dir = math::Vector3D(u[0], u[1], u[2]); return q.GetEnergy(); };
  double tol = 1e-9 * hi; bool ext = sim::chance(0.4); if(ext) sim::rng_extremes(0.3);
  for(int i = 0; i < 25; ++i) { math::Vector3D u; double E = draw(u), cz = u.GetZ(); SIM_CHECK(std::isfinite(E) && E >= lo - tol && E <= hi + tol && std::fabs(u.magnitude() - 1) < 1e-9 && cz >= za - 1e-9 && cz <= zb + 1e-9, "out-of-range", "%s: sampled energy %.17g, cosine %.17g", b, E, cz); double p = d->GenerationProbability(nullptr, nullptr, rec(E, u)); SIM_CHECK(std::isfinite(p) && (ext ? p >= 0 : p > 0), "density-of-sample", "%s: the sampled energy %.17g with cosine %.17g has density %g", b, E, cz, p); sim::state(sim::hash_bytes(&E, 8)); }
  sim::rng_extremes(0);
  for(double E : {lo * uni(s, 0.1, 0.99), hi * uni(s, 1.01, 3)}) SIM_CHECK(at(E, uni(s, za, zb)) == 0, "density-outside", "%s: an energy %g outside the range has a density", b, E); double em = lo + 0.5 * (hi - lo); if(za > -1) SIM_CHECK(at(em, uni(s, -1, za - 1e-3)) == 0, "density-outside", "%s: a zenith below the range has a density", b); if(zb < 1) SIM_CHECK(at(em, uni(s, zb + 1e-3, 1)) == 0, "density-outside", "%s: a zenith above the range has a density", b);
  if(ph && !moved) for(int k = 0; k < 5; ++k) { size_t i = s.below(e.size()); if(e[i] < lo * 1.0001 || e[i] > hi * 0.9999 || z[i] < za + 1e-6 || z[i] > zb - 1e-6) continue; double want = f[i], got = d->GetNormalization() * at(e[i], z[i]); SIM_CHECK(std::fabs(got - want) <= 1e-6 * want, "physical-normalisation", "%s: the table gives a flux of %.9g at energy %g and cosine %g, normalisation times density is %.9g", b, want, e[i], z[i], got); }
  // per energy and solid angle: the integral over both is one
  int ME = 400, MZ = 60; std::vector<double> FE(ME + 1, 0), FZ(MZ + 1, 0); auto en = [&](double t) { return lg ? lo * std::pow(hi / lo, t) : lo + (hi - lo) * t; }; double peak = 0; for(int i = 0; i < ME; ++i) { double dE = en((i + 1.0) / ME) - en((double)i / ME), E = en((i + 0.5) / ME); for(int j = 0; j < MZ; ++j) { double p = at(E, za + (zb - za) * (j + 0.5) / MZ); SIM_CHECK(std::isfinite(p) && p >= 0, "density-not-finite", "%s: density %g", b, p); double c = 2 * M_PI * p * dE * (zb - za) / MZ; peak = std::max(peak, c * ME * MZ); FE[i + 1] += c; FZ[j + 1] += c; } }
  for(int i = 0; i < ME; ++i) FE[i + 1] += FE[i]; for(int j = 0; j < MZ; ++j) FZ[j + 1] += FZ[j]; double T = FE[ME]; SIM_CHECK(std::fabs(T - 1) < 5e-3, "density-not-normalised", "%s: the density integrates to %.6f over energy and solid angle", b, T);
  if(peak > 8 * T || !sim::chance(0.6)) return; std::vector<double> ue, uz, up; int N = sim::chance(0.3) ? 8000 : 2500; auto cum = [&](std::vector<double> const& F, double t) { double y = t * (F.size() - 1); if(y <= 0) return 0.0; size_t k = (size_t)y; return k + 1 >= F.size() ? 1.0 : clamp01((F[k] + (F[k + 1] - F[k]) * (y - k)) / T); };
  for(int i = 0; i < N; ++i) { math::Vector3D u; double E = draw(u); ue.push_back(cum(FE, lg ? std::log(E / lo) / std::log(hi / lo) : (E - lo) / (hi - lo))); uz.push_back(cum(FZ, (u.GetZ() - za) / (zb - za))); up.push_back(clamp01((std::atan2(u.GetY(), u.GetX()) + M_PI) / (2 * M_PI))); }
  uniform(ue, b, "the energy", 0.004); uniform(uz, b, "the zenith", 0.004); uniform(up, b, "the azimuth");
}
sim::Reg r2b("flux2d", flux2d, "two-dimensional flux tables on seeded and extreme streams");
// ---- volumes ---------------------------------------------------------------------------
void volumes() {
  S s(sim::u64()); int kind = (int)sim::choose(3); auto pl = place(s, 20); double r = mag(s, 0.5, 50), in = coin(s) ? 0 : r * uni(s, 0.1, 0.95), h = mag(s, 0.5, 100); if(kind == 2) in = 0; geometry::Cylinder cy(pl, r, in, h); geometry::Sphere sp(pl, r, in); std::shared_ptr<distributions::PrimaryInjectionDistribution> d; char b[160];
  if(kind == 0) { d = std::make_shared<distributions::CylinderVolumePositionDistribution>(cy); snprintf(b, sizeof b, "CylinderVolume radius %g..%g height %g", in, r, h); } else if(kind == 1) { d = std::make_shared<distributions::SphereVolumePositionDistribution>(sp); snprintf(b, sizeof b, "SphereVolume radius %g..%g", in, r); } else { d = std::make_shared<distributions::FixedTargetAreaDistribution>(cy); snprintf(b, sizeof b, "FixedTargetArea radius %g height %g", r, h); }
  sim::context("%s", b); sim::probe(d->Name().c_str()); sim::log("%s", b); auto R = rnd(); auto dir = unitv(s); double V = kind == 1 ? 4.0 / 3 * M_PI * (r * r * r - in * in * in) : M_PI * (r * r - in * in) * h;
  auto draw = [&](Rec& o) { dataclasses::PrimaryDistributionRecord q(PT::NuMu); q.SetMass(0); q.SetEnergy(1); q.SetDirection({dir.GetX(), dir.GetY(), dir.GetZ()}); d->Sample(R, nullptr, nullptr, q); o = rec(1, dir); A3 p; if(kind == 2) p = q.GetPointOfClosestApproach(); else { p = q.GetInteractionVertex(); A3 i = q.GetInitialPosition(); o.primary_initial_position = i; double dot = 0, l = 0; for(int c = 0; c < 3; ++c) { double z = p[c] - i[c]; l += z * z; dot += z * (c == 0 ? dir.GetX() : c == 1 ? dir.GetY() : dir.GetZ()); } SIM_CHECK(dot >= std::sqrt(l) * (1 - 1e-6) - 1e-6 * (r + h), "not-on-path", "%s: the vertex does not lie ahead of the initial position", b); } o.interaction_vertex = p; return math::Vector3D(p[0], p[1], p[2]); };
  auto local = [&](math::Vector3D const& p) { return kind == 1 ? sp.GlobalToLocalPosition(p) : cy.GlobalToLocalPosition(p); }; auto dens = [&](Rec const& o) { return d->GenerationProbability(nullptr, nullptr, o); };
  bool ext = sim::chance(0.5); if(ext) sim::rng_extremes(0.3); double sz = r + (kind == 1 ? 0 : h), t = 1e-6 * sz;
  for(int i = 0; i < 30; ++i) { Rec o; math::Vector3D g; try { g = draw(o); } catch(std::runtime_error const&) { if(!ext) throw; sim::probe("an edge draw was refused"); continue; } auto p = local(g); double rho = kind == 1 ? p.magnitude() : std::hypot(p.GetX(), p.GetY()); SIM_CHECK(std::isfinite(rho), "not-finite", "%s: a sampled position is not finite", b); double q = dens(o);
    if(kind < 2) { bool edge = rho > r - t || rho < in + t || (kind == 0 && std::fabs(p.GetZ()) > h / 2 - t); SIM_CHECK(rho <= r + t && rho >= in - t && (kind == 1 || std::fabs(p.GetZ()) <= h / 2 + t), "out-of-range", "%s: sampled a position at radius %.9g, height %.9g", b, rho, p.GetZ()); SIM_CHECK((edge && ext && q == 0) || std::fabs(q * V - 1) < 1e-7, "density-of-sample", "%s: a sampled position has density %g instead of %g", b, q, 1 / V); }
    else SIM_CHECK(std::isfinite(q) && (ext ? q >= 0 : q > 0), "density-of-sample", "%s: a sampled point of closest approach has density %g", b, q);
    double z = p.GetX(); sim::state(sim::hash_bytes(&z, 8)); }
  sim::rng_extremes(0);
  if(kind < 2) for(int i = 0; i < 5; ++i) { auto u = unitv(s); Rec o = rec(1, dir); double f = coin(s) && in > 0 ? in * uni(s, 0, 0.99) : (kind == 1 ? r : std::hypot(r, h / 2)) * uni(s, 1.01, 3); auto g = kind == 1 ? sp.LocalToGlobalPosition(u * f) : cy.LocalToGlobalPosition(u * f); o.interaction_vertex = {g.GetX(), g.GetY(), g.GetZ()}; SIM_CHECK(dens(o) == 0, "density-outside", "%s: a position outside has density %g", b, dens(o)); }
  if(kind == 2 || !sim::chance(0.5)) return; std::vector<double> a, c, e; int N = sim::chance(0.3) ? 20000 : 3000;
  for(int i = 0; i < N; ++i) { Rec o; auto p = local(draw(o)); double rho = kind == 1 ? p.magnitude() : std::hypot(p.GetX(), p.GetY()); a.push_back(clamp01(kind == 1 ? (rho * rho * rho - in * in * in) / (r * r * r - in * in * in) : (rho * rho - in * in) / (r * r - in * in))); c.push_back(clamp01(kind == 1 ? (p.GetZ() / rho + 1) / 2 : p.GetZ() / h + 0.5)); e.push_back(clamp01((std::atan2(p.GetY(), p.GetX()) + M_PI) / (2 * M_PI))); }
  uniform(a, b, "the radius"); uniform(c, b, "the height"); uniform(e, b, "the azimuth");
}
sim::Reg r3("volumes", volumes, "volume and area distributions on seeded and extreme streams");
// ---- paths -----------------------------------------------------------------------------
const char* VN[] = {"", "", "PointSource", "PrimaryPhysicalVertex", "PrimaryBoundedVertex", "RangePosition", "DecayRangePosition", "ColumnDepthPosition", "FixedTargetPosition", "SecondaryVertex"};
void paths() {
  S s(sim::u64()); int kind = 2 + (int)sim::choose(8); bool hnl = kind == 6 || (kind != 5 && kind != 7 && coin(s, 0.4)), sec = kind == 9; auto det = detmodel(s, 3); PT type = hnl ? PT::N4 : PT::NuMu; double mass = hnl ? uni(s, 0.02, 0.3) : 0; std::shared_ptr<interactions::InteractionCollection> in;
  bool mixed = hnl && kind != 6 && coin(s); if(mixed) type = PT::NuMu; if(hnl && !mixed) in = hnlcoll(mass, mag(s, 1e-8, 1e-5)); else if(!hnl && coin(s)) in = nucoll();
  else { auto x = std::make_shared<interactions::HNLDipoleFromTable>(0.05, 1e-7, interactions::HNLDipoleFromTable::Conserving, true, false, mixed ? false : coin(s), std::set<PT>{type}); double sc = mag(s, 1e-20, 3e-13); int n; const int* c = nuclei(n); std::vector<PT> t{PT::HNucleus}; for(int i = 1; i < n; ++i) t.push_back((PT)c[i]); for(auto q : t) { x->AddTotalCrossSection(q, table1(s, sc)); x->AddDifferentialCrossSection(q, table2(s, sc)); } std::vector<std::shared_ptr<interactions::CrossSection>> xs{x}; std::vector<std::shared_ptr<interactions::Decay>> ds; if(mixed) ds.push_back(std::make_shared<interactions::HNLDipoleDecay>(mass, mag(s, 1e-8, 1e-5), interactions::HNLDipoleDecay::ChiralNature::Majorana, std::set<PT>{type})); if(mixed) in = std::make_shared<interactions::InteractionCollection>(type, xs, ds); else in = std::make_shared<interactions::InteractionCollection>(type, xs); }
  std::shared_ptr<distributions::PrimaryInjectionDistribution> d; std::shared_ptr<distributions::SecondaryInjectionDistribution> sd; double R2 = 0; 
  if(sec) sd = secondarydist(s); else if(kind == 5 || kind == 6 || kind == 7) { double r = uni(s, 1, 20), e = uni(s, 1, 20); R2 = M_PI * r * r; if(kind == 5) { std::set<PT> t{PT::Nucleon}; auto f = rangefn(s); d = std::make_shared<distributions::RangePositionDistribution>(r, e, f, t); } else if(kind == 6) d = std::make_shared<distributions::DecayRangePositionDistribution>(r, e, rangefn(s)); else d = std::make_shared<distributions::ColumnDepthPositionDistribution>(r, e, depthfn(s)); } else d = vertexdist(s, kind);
  auto vd = std::dynamic_pointer_cast<distributions::VertexPositionDistribution>(d); auto vs = std::dynamic_pointer_cast<distributions::SecondaryVertexPositionDistribution>(sd); const char* b = VN[kind]; sim::context("%s", b); sim::probe(b); auto R = rnd(); auto dir = unitv(s); double E = std::max(mass + mag(s, 0.5, 100), kind == 5 || kind == 6 ? 1.05 : 0.0), P = std::sqrt(E * E - mass * mass); auto start = vec(s, 20); A3 st{{start.GetX(), start.GetY(), start.GetZ()}}; const char* how = mixed ? "decays and interactions" : hnl ? "decays" : "interactions"; sim::log("%s, %s", b, how);
  auto draw = [&](Rec& r) { sim::StepGuard g(3000000000ull, "sampling a vertex");
    try { if(sec) { Rec par; par.signature.primary_type = PT::NuMu; par.signature.target_type = PT::Nucleon; par.signature.secondary_types = {type}; par.interaction_vertex = st; par.secondary_masses = {mass}; par.secondary_momenta = {{E, P * dir.GetX(), P * dir.GetY(), P * dir.GetZ()}}; par.secondary_helicities = {0.5}; par.secondary_times = {0}; par.secondary_ids = {dataclasses::ParticleID(1, 1)}; dataclasses::SecondaryDistributionRecord q(par, 0); sd->Sample(R, det, in, q); r = q.record; q.Finalize(r); }
      else { dataclasses::PrimaryDistributionRecord q(type); q.SetMass(mass); q.SetEnergy(E); q.SetDirection({dir.GetX(), dir.GetY(), dir.GetZ()}); q.SetHelicity(0.5); if(kind == 3 || kind == 4) q.SetInitialPosition(st); d->Sample(R, det, in, q); r = Rec(); r.signature.primary_type = type; q.FinalizeAvailable(r); } }
    catch(utilities::InjectionFailure const&) { return false; } r.signature.target_type = PT::Nucleon; return true; };
  auto dens = [&](Rec const& r) { return sec ? sd->GenerationProbability(det, in, r) : d->GenerationProbability(det, in, r); }; auto bounds = [&](Rec const& r) { return sec ? vs->InjectionBounds(det, in, r) : vd->InjectionBounds(det, in, r); };
  // the distribution function along one path
  struct Curve { bool ok = false; math::Vector3D a; double L = 0; std::vector<double> F; double slack = 0; }; 
  std::function<Curve(Rec, int, bool)> curve = [&](Rec r, int M, bool fine) { Curve c; auto bd = bounds(r); c.a = std::get<0>(bd); math::Vector3D z = std::get<1>(bd) - c.a; c.L = z.magnitude(); if(!(c.L > 1e-2)) return c; c.F.assign(M + 1, 0); double peak = 0; for(int i = 0; i < M; ++i) { auto v = c.a + dir * (c.L * (i + 0.5) / M); r.interaction_vertex = {v.GetX(), v.GetY(), v.GetZ()}; double p = dens(r); SIM_CHECK(std::isfinite(p) && p >= 0, "density-not-finite", "%s: the density at a point of the path is %g", b, p); double w = p * c.L / M; peak = std::max(peak, w); c.F[i + 1] = c.F[i] + w; }
    double T = c.F[M]; if(!(T > 0) || peak > 0.1 * T) return c; c.ok = true; c.slack = 3 * peak / T + 0.004; double nrm = kind == 8 ? 1 : R2 > 0 ? T * R2 : T; if(!fine && !(std::fabs(nrm - 1) < 2 * c.slack)) { sim::probe("path integrated again in small steps"); curve(r, 40 * M, true); c.ok = false; return c; } SIM_CHECK(std::fabs(nrm - 1) < 2 * c.slack, "density-not-normalised", "%s: the density integrates to %.5f over the path of %g m (%s)", b, nrm, c.L, how); for(auto& f : c.F) f /= T; sim::probe("density integrated"); return c; };
  auto pos = [&](Curve const& c, Rec const& r) { math::Vector3D v(r.interaction_vertex[0], r.interaction_vertex[1], r.interaction_vertex[2]); double t = math::scalar_product(v - c.a, dir) / c.L * (c.F.size() - 1); if(t <= 0) return 0.0; size_t k = (size_t)t; return k + 1 >= c.F.size() ? 1.0 : c.F[k] + (c.F[k + 1] - c.F[k]) * (t - k); };
  bool ext = sim::chance(0.4); if(ext) sim::rng_extremes(0.3); int fails = 0; Rec keep; bool have = false;
  for(int i = 0; i < 8; ++i) { Rec r; if(!draw(r)) { ++fails; continue; } math::Vector3D v(r.interaction_vertex[0], r.interaction_vertex[1], r.interaction_vertex[2]), w(r.primary_initial_position[0], r.primary_initial_position[1], r.primary_initial_position[2]); SIM_CHECK(std::isfinite(v.magnitude()) && std::isfinite(w.magnitude()), "not-finite", "%s: a sampled vertex is not finite", b); double t = math::scalar_product(v - w, dir), off = (v - w - dir * t).magnitude(); SIM_CHECK(t >= -1e-6 * (1 + v.magnitude()) && off < 1e-6 * (1 + t + v.magnitude()), "not-on-path", "%s: the vertex does not lie ahead of the initial position (%g along, %g off)", b, t, off);
    auto bd = bounds(r); double x0 = math::scalar_product(std::get<0>(bd) - v, dir), x1 = math::scalar_product(std::get<1>(bd) - v, dir); double p = dens(r); if(!ext && p == 0) for(double e : {-1e-6, 1e-6, -1e-4, 1e-4}) { auto q = v + dir * (e * (1 + v.magnitude())); Rec o = r; o.interaction_vertex = {q.GetX(), q.GetY(), q.GetZ()}; p = std::max(p, dens(o)); } bool empty = (std::get<1>(bd) - std::get<0>(bd)).magnitude() == 0;
    if(!ext || !empty) SIM_CHECK(x0 <= 2e-3 && x1 >= -2e-3, "out-of-range", "%s: a vertex lies outside the bounds of its injection (%g before, %g after)", b, x0, x1); SIM_CHECK(std::isfinite(p) && (ext ? p >= 0 : p > 0), "density-of-sample", "%s: a sampled vertex has density %g (%s)", b, p, how); if(!ext) { keep = r; have = true; } double z = v.GetX(); sim::state(sim::hash_bytes(&z, 8));
    if(!ext) for(double f : {-0.05, -1.0, 0.05, 1.0}) { auto q = f < 0 ? std::get<0>(bd) + dir * f : std::get<1>(bd) + dir * f; Rec o = r; o.interaction_vertex = {q.GetX(), q.GetY(), q.GetZ()}; if(kind == 8) break; double pp = dens(o); SIM_CHECK(pp == 0, "density-outside", "%s: a point %g m outside the bounds has density %g", b, f, pp); } }
  sim::rng_extremes(0); if(!have || !sim::chance(0.5)) return; bool fixed = kind == 2 || kind == 3 || kind == 4 || kind == 9;
  std::vector<double> u; double slack = 0; if(fixed) { Curve c = curve(keep, 1500, false); if(!c.ok) { sim::probe("density too peaked to integrate"); return; } slack = c.slack; for(int i = 0; i < 1500; ++i) { Rec r; if(draw(r)) u.push_back(pos(c, r)); } } else for(int i = 0; i < 120; ++i) { Rec r; if(!draw(r)) continue; Curve c = curve(r, 150, false); if(c.ok) { slack = std::max(slack, c.slack); u.push_back(pos(c, r)); } }
  uniform(u, b, "the position along the path", 2 * slack);
}
sim::Reg r4("paths", paths, "vertex distributions along their paths");
}
