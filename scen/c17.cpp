// C17: loading a data table never loses data silently.
#include "sim.h"
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <unistd.h>
#include "SIREN/utilities/Random.h"
#include "SIREN/utilities/Interpolator.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/detector/MaterialModel.h"
#include "SIREN/distributions/primary/energy/TabulatedFluxDistribution.h"
#include "SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h"
#include "SIREN/distributions/primary/PrimaryExternalDistribution.h"
#include "SIREN/interactions/HNLDipoleFromTable.h"
#include "SIREN/detector/DetectorModel.h"
#include "SIREN/detector/ConstantDensityDistribution.h"
#include "SIREN/detector/RadialAxisPolynomialDensityDistribution.h"
#include "SIREN/math/EulerQuaternionConversions.h"
#include "SIREN/geometry/Sphere.h"
#include "SIREN/geometry/Box.h"
#include "SIREN/geometry/Cylinder.h"
#include "SIREN/geometry/Cone.h"
#include "SIREN/geometry/Trd.h"
#include "SIREN/geometry/ExtrPoly.h"
using namespace siren;
namespace {
typedef dataclasses::ParticleType PT;
// ---- text with known entries -------------------------------------------------
struct Text {
  std::string s; struct E { size_t begin, last, end, alt_b = 0, alt_e = 0; }; std::vector<E> entries; // [begin,end); last = start of the last token
  std::vector<size_t> tokens; size_t cur = 0; bool noise = true, lead_blank = true, trailing = true; bool line_open = false;
  void filler() { if(!noise) return; while(sim::chance(0.15)) { switch(sim::choose(3)) { case 0: s += "\n"; break; case 1: s += "# 1 2 3 comment\n"; break; case 2: s += lead_blank ? "  \t\n" : "#\n"; } } }
  void begin() { cur = s.size(); tokens.clear(); }
  void tok(std::string const& t, const char* sep) { if(!s.empty() && line_open) s += sep; tokens.push_back(s.size()); s += t; line_open = true; }
  void eol(bool last = false) { if(trailing && noise && sim::chance(0.1)) s += " # note"; else if(noise && sim::chance(0.1)) s += trailing ? " \t" : ""; line_open = false; s += "\n"; }
  void end(size_t e) { entries.push_back({cur, tokens.back(), e}); }
};
std::string num(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }
double val() { double m = std::pow(10.0, sim::range(-3, 3)); return m; }
typedef std::vector<double> Ans;      // the observable answers of a loaded table
void add(Ans& a, std::vector<double> const& v) { a.push_back((double)v.size()); a.insert(a.end(), v.begin(), v.end()); }
struct Loader {
  const char* name; std::string file; Text text;
  size_t head = 0;                     // entries that must be there (header)
  std::function<Ans(std::string const&)> load;     // real loader on a path
  std::function<bool(size_t, Ans&)> expect;        // answers for the first n entries; false: too few entries, must raise
  bool keeps = true;
};
int codes[] = {1000010010, 1000060120, 1000080160, 1000180400, 1000260560, 1000822080, 11, 2212};
Loader materials() {
  Loader l; l.name = "material table"; l.file = "mat.dat"; l.text.lead_blank = true; Text& t = l.text;
  struct M { std::string name; std::map<int, double> f; }; auto ms = std::make_shared<std::vector<M>>();
  uint32_t n = 1 + sim::choose(4);
  for(uint32_t i = 0; i < n; ++i) {
    M m; m.name = "MAT" + std::to_string(sim::chance(0.1) && i ? 0 : i); uint32_t k = sim::choose(5); while(m.f.size() < k) m.f[codes[sim::choose(8)]] = sim::range(0.01, 1);
    t.filler(); t.begin(); t.tok(m.name, " "); t.tok(std::to_string(k), sim::chance(0.5) ? " " : "\t"); size_t e = t.s.size(); t.eol();
    for(auto& c : m.f) { t.filler(); t.tok(std::to_string(c.first), " "); t.tok(num(c.second), " "); e = t.s.size(); t.eol(); }
    t.end(e); ms->push_back(m);
  }
  t.filler();
  auto answers = [](detector::MaterialModel const& m) {
    Ans a; int k = 0; for(; m.HasMaterial(k); ++k) {
      std::string nm = m.GetMaterialName(k); a.push_back(k); a.push_back((double)sim::hash_bytes(nm.data(), nm.size())); a.push_back(m.GetMaterialId(nm)); a.push_back(m.GetMaterialRadiationLength(k));
      for(auto c : m.GetMaterialTargets(k)) { a.push_back((double)(int)c); a.push_back(m.GetTargetMassFraction(k, c)); a.push_back(m.GetTargetParticleFraction(k, c)); }
    } return a; };
  bool pre = sim::chance(0.2);
  auto base = [pre](detector::MaterialModel& m) { if(pre) m.AddMaterial("PRE", {{1000080160, 1.0}}); };
  l.load = [=](std::string const& p) { detector::MaterialModel m; base(m); m.AddModelFile(p); return answers(m); };
  l.expect = [=](size_t k, Ans& a) { detector::MaterialModel m; base(m); for(size_t i = 0; i < k; ++i) m.AddMaterial((*ms)[i].name, (*ms)[i].f); a = answers(m); return true; };
  return l;
}
Loader flux1d() {
  Loader l; l.name = "flux table"; l.file = "flux.txt"; Text& t = l.text;
  auto e = std::make_shared<Ans>(), f = std::make_shared<Ans>(); uint32_t n = 2 + sim::choose(6); double x = val(); bool zero = sim::chance(0.2);
  for(uint32_t i = 0; i < n; ++i) { e->push_back(x); f->push_back(zero && sim::chance(0.3) && i ? 0.0 : val()); x += val(); }
  for(uint32_t i = 0; i < n; ++i) { t.filler(); t.begin(); if(sim::chance(0.2)) t.s += " "; t.tok(num((*e)[i]), " "); t.tok(num((*f)[i]), sim::chance(0.5) ? " " : "\t"); size_t q = t.s.size(); t.eol(); t.end(q); }
  t.filler();
  bool bounds = sim::chance(0.3), romb = sim::chance(0.02); double lo = (*e)[0], hi = (*e)[1];
  auto answers = [](distributions::TabulatedFluxDistribution const& d) {
    Ans a; add(a, d.GetEnergyNodes()); add(a, d.GetCDF()); a.push_back(d.GetIntegral()); for(double x : d.GetEnergyNodes()) a.push_back(d.SampleUnnormedPDF(x)), a.push_back(d.SamplePDF(x * 1.01));
    for(double u : {0.0, 0.1, 0.5, 0.9}) a.push_back(d.InverseCDF(u)); return a; };
  l.load = [=](std::string const& p) { return bounds ? answers(distributions::TabulatedFluxDistribution(lo, hi, p, false, romb)) : answers(distributions::TabulatedFluxDistribution(p, true, romb)); };
  l.expect = [=](size_t k, Ans& a) { if(k < 2) return false; Ans ee(e->begin(), e->begin() + k), ff(f->begin(), f->begin() + k);
    a = bounds ? answers(distributions::TabulatedFluxDistribution(lo, hi, ee, ff, false, romb)) : answers(distributions::TabulatedFluxDistribution(ee, ff, true, romb)); return true; };
  return l;
}
Loader flux2d() {
  Loader l; l.name = "two-dimensional flux table"; l.file = "flux2.txt"; Text& t = l.text;
  auto e = std::make_shared<Ans>(), z = std::make_shared<Ans>(), f = std::make_shared<Ans>(); uint32_t nx = 2 + sim::choose(3), ny = 2 + sim::choose(3); double x0 = val(), dx = val();
  for(uint32_t i = 0; i < nx; ++i) for(uint32_t j = 0; j < ny; ++j) { e->push_back(x0 + dx * i); z->push_back(-1 + 2.0 * j / (ny - 1)); f->push_back(1 + 0.001 * f->size()); }
  for(size_t i = 0; i < e->size(); ++i) { t.filler(); t.begin(); t.tok(num((*e)[i]), " "); t.tok(num((*z)[i]), " "); t.tok(num((*f)[i]), " "); size_t q = t.s.size(); t.eol(); t.end(q); }
  t.filler(); size_t full = e->size();
  auto answers = [](distributions::Tabulated2DFluxDistribution const& d) {
    Ans a; add(a, d.GetEnergyNodes()); add(a, d.GetCosZenithNodes()); a.push_back(d.GetIntegral()); Ans en = d.GetEnergyNodes(), zn = d.GetCosZenithNodes();
    for(size_t i = 0; i < en.size(); ++i) a.push_back(d.SampleUnnormedPDF(en[i], zn[i])); return a; };
  l.load = [=](std::string const& p) { return answers(distributions::Tabulated2DFluxDistribution(p, false)); };
  l.expect = [=](size_t k, Ans& a) { if(k < full) return false; Ans E(*e), Z(*z), F(*f); a = answers(distributions::Tabulated2DFluxDistribution(E, Z, F, false)); return true; };
  l.keeps = false; // a grid with missing corners cannot be used: raising later is acceptable too
  return l;
}
Loader external() {
  Loader l; l.name = "external event list"; l.file = "ext.csv"; Text& t = l.text; t.trailing = false; t.lead_blank = true;
  std::vector<std::string> keys = {"E"}; bool mom = sim::chance(0.5); if(mom) { keys.push_back("px"); keys.push_back("py"); keys.push_back("pz"); } uint32_t extra = sim::choose(3); for(uint32_t i = 0; i < extra; ++i) keys.push_back("col" + std::to_string(i));
  bool noise = t.noise; t.noise = false; t.begin(); for(auto& k : keys) t.tok(k, ","); { size_t q = t.s.size(); t.eol(); t.end(q); } t.noise = noise; l.head = 1;
  auto rows = std::make_shared<std::vector<Ans>>(); uint32_t n = 1 + sim::choose(5); double emin = sim::chance(0.4) ? 1.0 : 0.0;
  for(uint32_t i = 0; i < n; ++i) { Ans r; t.filler(); t.begin(); for(size_t k = 0; k < keys.size(); ++k) { r.push_back(val()); t.tok(num(r.back()), sim::chance(0.3) ? ", " : ","); } size_t q = t.s.size(); t.eol(); t.end(q); rows->push_back(r); }
  uint64_t seed = sim::u64();
  auto kk = std::make_shared<std::vector<std::string>>(keys);
  l.load = [=](std::string const& p) {
    distributions::PrimaryExternalDistribution d(p, emin); Ans a; size_t n = d.GetPhysicalNumEvents(); a.push_back((double)n);
    std::set<Ans> seen; auto r = std::make_shared<utilities::SIREN_random>(seed);
    for(size_t i = 0; i < 60 * n; ++i) { dataclasses::PrimaryDistributionRecord rec(PT::NuMu); d.Sample(r, nullptr, nullptr, rec); dataclasses::InteractionRecord ir; rec.SetMass(0); Ans v;
      for(auto& k : *kk) { if(k == "E") v.push_back(rec.GetEnergy()); else if(k == "px") v.push_back(rec.GetThreeMomentum()[0]); else if(k == "py") v.push_back(rec.GetThreeMomentum()[1]); else if(k == "pz") v.push_back(rec.GetThreeMomentum()[2]); }
      if(kk->size() > v.size()) { rec.SetDirection({0, 0, 1}); rec.SetInitialPosition({0, 0, 0}); rec.SetInteractionVertex({0, 0, 1}); rec.Finalize(ir); for(auto& k : *kk) if(k[0] == 'c') { auto it = ir.interaction_parameters.find(k); v.push_back(it == ir.interaction_parameters.end() ? -1e99 : it->second); } }
      seen.insert(v); }
    for(auto& v : seen) add(a, v); return a; };
  l.expect = [=](size_t k, Ans& a) { std::set<Ans> s; size_t c = 0; for(size_t i = 1; i < k; ++i) { Ans const& r = (*rows)[i - 1]; if(r[0] < emin) continue; ++c; s.insert(r); } if(!c) return false; a.clear(); a.push_back((double)c); for(auto& v : s) add(a, v); return true; };
  return l;
}
Loader hnl(bool total) {
  Loader l; l.name = total ? "total cross section table" : "differential cross section table"; l.file = "xsec_Z_18_A_40_mHNL_0.1_.dat"; Text& t = l.text;
  auto x = std::make_shared<Ans>(), y = std::make_shared<Ans>(), f = std::make_shared<Ans>(); PT tgt = (PT)1000180400; size_t full;
  if(total) { uint32_t n = 2 + sim::choose(5); double q = 0.2 + val(); for(uint32_t i = 0; i < n; ++i) { x->push_back(q); f->push_back(val()); q += val(); } }
  else { uint32_t nx = 2 + sim::choose(3), ny = 2 + sim::choose(3); double q = val(); for(uint32_t i = 0; i < nx; ++i) { for(uint32_t j = 0; j < ny; ++j) { x->push_back(q); y->push_back((double)j / (ny - 1)); f->push_back(val()); } q += val(); } }
  full = x->size();
  for(size_t i = 0; i < full; ++i) { t.filler(); t.begin(); t.tok(num((*x)[i]), " "); if(!total) t.tok(num((*y)[i]), " "); t.tok(num((*f)[i]), " "); size_t q = t.s.size(); t.eol(); t.end(q); }
  t.filler();
  auto answers = [=](interactions::HNLDipoleFromTable const& d) {
    Ans a; for(size_t i = 0; i < full; ++i) for(double s : {1.0, 1.001}) { double q = (*x)[i] * s; try {
      if(total) a.push_back(d.TotalCrossSection(PT::NuMu, q, tgt));
      else { double lo = d.DipoleyMin(q, 0.1, 37.2), hi = d.DipoleyMax(q, 0.1, 37.2); a.push_back(d.DifferentialCrossSection(PT::NuMu, q, tgt, 37.2, lo + (0.001 + 0.998 * (*y)[i]) * (hi - lo))); } } catch(std::exception const&) { a.push_back(-7); } }
    return a; };
  // tables for protons and, where the other kind is loaded, for the target are always there
  auto mk = [=] { interactions::HNLDipoleFromTable d(0.1, 1e-3, interactions::HNLDipoleFromTable::Conserving);
    utilities::TableData1D<double> t1; t1.x = {0.2, 1e9}; t1.f = {1, 2}; utilities::TableData2D<double> t2; t2.x = {0.2, 0.2, 1e9, 1e9}; t2.y = {0, 1, 0, 1}; t2.f = {1, 2, 3, 4};
    d.AddTotalCrossSection(PT::HNucleus, utilities::Interpolator1D<double>(t1)); d.AddDifferentialCrossSection(PT::HNucleus, utilities::Interpolator2D<double>(t2));
    if(total) d.AddDifferentialCrossSection(tgt, utilities::Interpolator2D<double>(t2)); else d.AddTotalCrossSection(tgt, utilities::Interpolator1D<double>(t1)); return d; };
  l.load = [=](std::string const& p) { auto d = mk(); if(total) d.AddTotalCrossSectionFile(p, tgt); else d.AddDifferentialCrossSectionFile(p, tgt); return answers(d); };
  l.expect = [=](size_t k, Ans& a) {
    if(k < (total ? 2 : full)) return false; auto d = mk();
    if(total) { utilities::TableData1D<double> td; td.x.assign(x->begin(), x->begin() + k); td.f.assign(f->begin(), f->begin() + k); d.AddTotalCrossSection(tgt, utilities::Interpolator1D<double>(td)); }
    else { utilities::TableData2D<double> td; td.x = *x; td.y = *y; td.f = *f; d.AddDifferentialCrossSection(tgt, utilities::Interpolator2D<double>(td)); }
    a = answers(d); return true; };
  l.keeps = total;
  return l;
}
struct Sec { std::string name; int level, mat; std::shared_ptr<geometry::Geometry const> geo; std::shared_ptr<detector::DensityDistribution const> rho; math::Vector3D org; math::Quaternion rot; bool sector; };
detector::MaterialModel mats() { detector::MaterialModel m; m.AddMaterial("VACUUM", {{1000010010, 1.0}}); m.AddMaterial("ROCK", {{1000080160, 0.5}, {1000140280, 0.5}}); m.AddMaterial("ICE", {{1000080160, 0.9}, {1000010010, 0.1}}); return m; }
void add(Ans& a, math::Vector3D const& v) { a.push_back(v.GetX()); a.push_back(v.GetY()); a.push_back(v.GetZ()); }
void add(Ans& a, math::Quaternion const& q) { a.push_back(q.GetX()); a.push_back(q.GetY()); a.push_back(q.GetZ()); a.push_back(q.GetW()); }
Loader detdat() {
  Loader l; l.name = "detector description"; l.file = "det.dat"; Text& t = l.text; auto secs = std::make_shared<std::vector<Sec>>(); uint32_t n = 1 + sim::choose(4); int level = 0; const char* mn[] = {"VACUUM", "ROCK", "ICE"};
  auto put = [&](double v) { t.tok(num(v), " "); return v; };
  for(uint32_t i = 0; i < n; ++i) {
    Sec q; t.filler(); t.begin();
    if(sim::chance(0.25)) {
      t.tok("detector", " "); q.sector = false; double x = put(val()), y = put(val()), z = put(val()); q.org = math::Vector3D(x, y, z); size_t b = t.tokens.back(), e = t.s.size();
      bool r = sim::chance(0.5); if(r) { double a = put(sim::range(0, 3)), b2 = put(sim::range(0, 3)), c = put(sim::range(0, 3)); q.rot = math::QFromZXZr(a, b2, c); }
      size_t end = t.s.size(); t.eol(); t.end(end); if(r) { t.entries.back().alt_b = b; t.entries.back().alt_e = e; }
      secs->push_back(q); continue;
    }
    q.sector = true; q.level = level++; q.name = "sec" + std::to_string(i); t.tok("object", " "); const char* shapes[] = {"sphere", "box", "cylinder", "cone", "trd", "extr"}; int sh = (int)sim::choose(6); t.tok(shapes[sh], " ");
    double x = put(val()), y = put(val()), z = put(val()), a = put(0.1), b = put(sim::range(0, 1)), c = put(0.3); geometry::Placement pl(math::Vector3D(x, y, z), math::QFromZXZr(a, b, c));
    switch(sh) {
      case 0: { double r = put(val()); q.geo = geometry::Sphere(pl, r, 0).create(); break; }
      case 1: { double u = put(val()), v = put(val()), w = put(val()); q.geo = geometry::Box(pl, u, v, w).create(); break; }
      case 2: { double r = 1 + val(); put(r); double i = put(r * 0.5), w = put(val()); q.geo = geometry::Cylinder(pl, r, i, w).create(); break; }
      case 3: { double u = put(0.5), v = put(1.5), w = put(0.25), o = put(2), h = put(val()); q.geo = geometry::Cone(pl, u, v, w, o, h).create(); break; }
      case 4: { double u = put(val()), v = put(val()), w = put(val()), o = put(val()), h = put(val()); q.geo = geometry::Trd(pl, u, v, w, o, h).create(); break; }
      default: { t.tok("3", " "); std::vector<std::vector<double>> poly; double xy[3][2] = {{0, 0}, {1, 0}, {0, 1.5}}; for(auto& v : xy) { put(v[0]); put(v[1]); poly.push_back({v[0], v[1]}); } t.tok("2", " "); std::vector<geometry::ExtrPoly::ZSection> zs; for(double h : {-1.0, 1.0}) { double o[2] = {0, 0}; put(h); put(0); put(0); put(1); zs.push_back(geometry::ExtrPoly::ZSection(h, o, 1)); } q.geo = geometry::ExtrPoly(pl, poly, zs).create(); }
    }
    t.tok(q.name, " "); q.mat = (int)sim::choose(3); t.tok(mn[q.mat], " ");
    if(sim::chance(0.6)) { t.tok("constant", " "); q.rho = detector::ConstantDensityDistribution(put(val())).create(); }
    else { t.tok("radial_polynomial", " "); double x = put(0), y = put(0), z = put(0); detector::RadialAxis1D ax(math::Vector3D(x, y, z)); uint32_t np = 1 + sim::choose(3); t.tok(std::to_string(np), " "); std::vector<double> ps; for(uint32_t k = 0; k < np; ++k) ps.push_back(put(val())); q.rho = detector::RadialAxisPolynomialDensityDistribution(ax, ps).create(); }
    size_t e = t.s.size(); t.eol(); t.end(e); secs->push_back(q);
  }
  t.filler();
  l.load = [=](std::string const& p) {
    detector::DetectorModel m; m.SetMaterials(mats()); m.LoadDetectorModel(p); Ans a; std::vector<Sec const*> s; for(auto& q : *secs) if(q.sector) s.push_back(&q);
    auto const& got = m.GetSectors(); a.push_back((double)got.size()); for(size_t i = 1; i < got.size(); ++i) { a.push_back((double)sim::hash_bytes(got[i].name.data(), got[i].name.size())); a.push_back(got[i].level); a.push_back(got[i].material_id); a.push_back(i <= s.size() && got[i].geo && *got[i].geo == *s[i - 1]->geo); a.push_back(i <= s.size() && got[i].density && *got[i].density == *s[i - 1]->rho); }
    add(a, m.GetDetectorOrigin().get()); add(a, m.GetDetectorRotation()); return a; };
  l.expect = [=](size_t k, Ans& a) {
    size_t n = 1; for(size_t i = 0; i < k; ++i) n += (*secs)[i].sector; a.assign(1, (double)n); math::Vector3D o(0, 0, 0); math::Quaternion r;
    for(size_t i = 0; i < k; ++i) { Sec const& q = (*secs)[i]; if(!q.sector) { o = q.org; r = q.rot; continue; } a.push_back((double)sim::hash_bytes(q.name.data(), q.name.size())); a.push_back(q.level); a.push_back(q.mat); a.push_back(1); a.push_back(1); }
    add(a, o); add(a, r); return true; };
  return l;
}
Loader legacy() {
  Loader l; l.name = "legacy detector description"; l.file = "leg.dat"; Text& t = l.text; auto lines = std::make_shared<std::vector<std::string>>(); uint32_t n = 1 + sim::choose(4); double r = 0; const char* mn[] = {"ROCK", "ROCK", "ICE"};
  for(uint32_t i = 0; i < n; ++i) { t.filler(); t.begin(); size_t b = t.s.size(); r += val(); t.tok(num(r), " "); t.tok("L" + std::to_string(i), " "); t.tok(mn[sim::choose(3)], " "); uint32_t np = 1 + sim::choose(3); t.tok(std::to_string(np), " "); for(uint32_t k = 0; k < np; ++k) t.tok(num(val()), " "); size_t e = t.s.size(); lines->push_back(t.s.substr(b, e - b)); t.eol(); t.end(e); }
  t.filler(); double depth = val(), angle = sim::chance(0.5) ? 0.3 : -1;
  l.load = [=](std::string const& p) {
    detector::DetectorModel m; m.SetMaterials(mats()); m.LoadConcentricShellsFromLegacyFile(p, depth, angle); Ans a; auto const& got = m.GetSectors(); a.push_back((double)got.size());
    for(size_t i = 1; i < got.size(); ++i) { a.push_back((double)sim::hash_bytes(got[i].name.data(), got[i].name.size())); a.push_back(got[i].level); a.push_back(got[i].material_id); auto sp = dynamic_cast<geometry::Sphere const*>(got[i].geo.get()); a.push_back(sp ? sp->GetRadius() : -1); for(double x : {0.0, 0.5, 2.0}) a.push_back(got[i].density->Evaluate(math::Vector3D(x, 0, 0))); }
    add(a, m.GetDetectorOrigin().get()); return a; };
  auto load = l.load;
  // reference: the complete lines alone, without comments, delivered without faults
  l.expect = [=](size_t k, Ans& a) { bool armed = sim::disk().armed; sim::disk().armed = false; std::string p = sim::scratch() + "/ref.dat", s; for(size_t i = 0; i < k; ++i) s += (*lines)[i] + "\n"; sim::spit(p, s); a = load(p); sim::disk().armed = armed; return a[0] == k + 1; };
  return l;
}
Loader gdml() {
  Loader l; l.name = "GDML file"; l.file = "det.gdml"; Text& t = l.text; uint32_t n = 1 + sim::choose(3); std::string& s = t.s; auto b = std::make_shared<Ans>();
  t.begin(); t.tokens.push_back(0);
  s += "<?xml version=\"1.0\"?>\n<gdml>\n<define/>\n<materials><element name=\"O\" formula=\"O\" Z=\"8\"><atom value=\"16\"/></element><material name=\"M\" formula=\"M\"><D value=\"" + num(1.5) + "\"/><fraction n=\"1.0\" ref=\"O\"/></material></materials>\n<solids>\n<box name=\"W\" x=\"1000\" y=\"1000\" z=\"1000\" lunit=\"m\"/>\n";
  for(uint32_t i = 0; i < n; ++i) { b->push_back(1 + sim::choose(9)); s += "<box name=\"B" + std::to_string(i) + "\" x=\"" + num(b->back()) + "\" y=\"2\" z=\"3\" lunit=\"m\"/>\n"; }
  s += "</solids>\n<structure>\n"; for(uint32_t i = 0; i < n; ++i) s += "<volume name=\"V" + std::to_string(i) + "\"><materialref ref=\"M\"/><solidref ref=\"B" + std::to_string(i) + "\"/></volume>\n";
  s += "<volume name=\"World\"><materialref ref=\"M\"/><solidref ref=\"W\"/>"; for(uint32_t i = 0; i < n; ++i) s += "<physvol name=\"P" + std::to_string(i) + "\"><volumeref ref=\"V" + std::to_string(i) + "\"/><position name=\"p" + std::to_string(i) + "\" unit=\"m\" x=\"" + num(20.0 * i) + "\" y=\"0\" z=\"0\"/></physvol>";
  s += "</volume>\n</structure>\n<setup name=\"Default\" version=\"1.0\"><world ref=\"World\"/></setup>\n</gdml>"; size_t e = s.size(); s += "\n"; t.entries.push_back({0, e, e});
  l.load = [=](std::string const& p) { detector::DetectorModel m; m.LoadGDML(p, false); Ans a; for(uint32_t i = 0; i < n; ++i) { math::Vector3D c(20.0 * i, 0, 0); math::Vector3D in(20.0 * i + (*b)[i] * 0.49, 0, 0), out(20.0 * i + (*b)[i] * 0.51, 0, 0); for(auto& v : {c, in, out}) { auto q = m.GetContainingSector(detector::DetectorPosition(v)); a.push_back(q.name.find("P" + std::to_string(i)) != std::string::npos || q.name.find("V" + std::to_string(i)) != std::string::npos); } } a.push_back((double)m.GetSectors().size()); return a; };
  l.expect = [=](size_t k, Ans& a) { if(!k) return false; a.clear(); for(uint32_t i = 0; i < n; ++i) { a.push_back(1); a.push_back(1); a.push_back(0); } a.push_back(n + 2.0); return true; };
  l.head = 1; return l;
}
bool same(Ans const& a, Ans const& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
std::string diff(Ans const& a, Ans const& b) { for(size_t i = 0; i < a.size() && i < b.size(); ++i) if(memcmp(&a[i], &b[i], 8)) return "answer " + std::to_string(i) + ": " + num(a[i]) + " instead of " + num(b[i]); return std::to_string(a.size()) + " answers instead of " + std::to_string(b.size()); }

void attempt(Loader& l, std::string const& path, bool& raised, std::string& what, Ans& got) {
  raised = false; sim::StepGuard g(2000000000, "loading a table");
  try { got = l.load(path); } catch(std::exception const& e) { sim::alloc_disarm(); raised = true; what = e.what(); }
}
bool expected(Loader& l, size_t k, Ans& a) { try { return l.expect(k, a); } catch(std::exception const&) { sim::probe("unusable"); return false; } }
void run_with(Loader l) {
  sim::context("loading a %s", l.name);
  std::string path = sim::scratch() + "/" + l.file; Text& t = l.text; std::string s = t.s; if(sim::chance(0.3) && !s.empty() && s.back() == '\n') s.pop_back();
  size_t all = t.entries.size(); while(all && t.entries[all - 1].end > s.size()) --all;
  sim::disk_reset(); sim::Disk& d = sim::disk();
  Ans want, got; bool usable = expected(l, all, want), raised; std::string what; int64_t alloc = -1;
  int mode = (int)sim::choose_w({4, 4, 2, 1, 5, 1}); size_t cut = s.size(); const char* names[] = {"plain", "read-error", "open-error", "missing", "cut", "memory"};
  if(mode == 4) { size_t back = sim::chance(0.5) ? sim::choose((uint32_t)std::min<size_t>(s.size(), 40) + 1) : sim::choose((uint32_t)s.size() + 1); cut = s.size() - back; }
  if(mode != 3) sim::spit(path, s.substr(0, cut));
  d.armed = true; if(sim::chance(0.5)) d.p_short_read = 0.4; if(sim::chance(0.3)) d.p_eintr_read = 0.2;
  if(mode == 1) { d.fail_read_at = (int64_t)sim::choose((uint32_t)s.size()); d.fail_read_errno = sim::chance(0.8) ? 5 : 21; }
  if(mode == 2) { d.fail_open_errno = sim::chance(0.5) ? 13 : 24; d.fail_open_skip = (int)sim::choose(3); }
  if(mode == 5) { alloc = (int64_t)sim::log_uniform(300); sim::alloc_fail_at(alloc); }
  sim::log("%s with %zu entries in %zu bytes, %s (%zu)", l.name, t.entries.size(), s.size(), names[mode], cut);
  attempt(l, path, raised, what, got); bool afail = sim::alloc_failed(); sim::alloc_fail_at(-1); d.armed = false;
  sim::log("load %s", raised ? "raised" : "returned"); sim::probe(names[mode]); sim::probe(raised ? "raised" : "loaded");
  if(mode == 1) { if(!d.read_failed) sim::probe("error-not-reached"); SIM_CHECK(raised || !d.read_failed, "read-error-hidden", "loading a %s returned normally although the file could not be read beyond byte %ld", l.name, (long)d.fail_read_at); if(d.read_failed) return; }
  if(mode == 2) { SIM_CHECK(raised || !d.open_failed, "open-error-hidden", "loading a %s returned normally although the file could not be opened", l.name); if(d.open_failed) return; }
  if(mode == 3) { SIM_CHECK(raised, "missing-hidden", "loading a missing %s returned normally", l.name); return; }
  if(mode == 5 && (afail || raised)) return;
  if(mode == 4) {
    size_t k = 0; while(k < all && t.entries[k].end <= cut) ++k;
    bool inside = k < t.entries.size() && t.entries[k].begin < cut;         // an entry was cut
    bool ambiguous = inside && t.entries[k].last < cut;                     // in its last token: looks complete
    if(inside && t.entries[k].alt_e && cut > t.entries[k].alt_b && cut <= t.entries[k].alt_e + 1) ambiguous = true; // a shorter complete form
    if(!inside && k < t.entries.size()) { // cut between entries: that is a complete, shorter file
      sim::probe("cut-between"); }
    if(ambiguous) { sim::probe("cut-last-token"); return; }
    if(inside) sim::probe("cut-inside-entry");
    Ans w; bool u = k >= l.head && expected(l, k, w);
    if(!l.keeps && k < all) { return; }
    if(!u) { SIM_CHECK(raised, "short-accepted", "loading a %s of which only %zu entries are left returned normally", l.name, k); return; }
    if(raised) { SIM_CHECK(inside, "spurious-failure", "loading a %s with %zu complete entries raised: %s", l.name, k, what.c_str()); return; }
    SIM_CHECK(same(got, w), "partial-entry", "a %s cut at byte %zu, %s entry %zu, loaded as something else than its %zu complete entries (%s)", l.name, cut, inside ? "inside" : "before", k, k, diff(got, w).c_str());
    return;
  }
  if(!usable) { SIM_CHECK(raised, "empty-accepted", "loading a %s without usable entries returned normally", l.name); return; }
  SIM_CHECK(!raised, "spurious-failure", "loading an intact %s raised: %s", l.name, what.c_str());
  SIM_CHECK(same(got, want), "content", "an intact %s loaded as something else than what it holds (%s)", l.name, diff(got, want).c_str());
}
void run_tables() {
  sim::rng_extremes(0); Loader l;
  switch(sim::choose_w({4, 4, 4, 1, 4, 3})) { case 0: l = materials(); break; case 1: l = flux1d(); break; case 2: l = external(); break; case 3: l = flux2d(); break; case 4: l = hnl(true); break; default: l = hnl(false); }
  run_with(l);
}
void run_detector() { Loader l; switch(sim::choose_w({5, 2, 1})) { case 0: l = detdat(); break; case 1: l = legacy(); break; default: l = gdml(); } run_with(l); }
sim::Reg r2("detector", run_detector, "detector description loaders under delivery faults and truncation");
sim::Reg r1("tables", run_tables, "table loaders under delivery faults and truncation");
}
