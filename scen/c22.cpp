// C22: materials, detectors and paths answer from what they contain now, whatever sequence of changes and queries led there.
#include "components.h"
#include <algorithm>
#include "SIREN/detector/Path.h"
#include "SIREN/utilities/Constants.h"
namespace {
using namespace comp; using namespace detector; typedef math::Vector3D V3;
template<class F> bool attempt(F f) { try { f(); return true; } catch(std::exception const&) { return false; } }
bool near9(double a, double b, double scale = 0) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-9 * std::max(std::max(std::fabs(a), std::fabs(b)), scale); }
// ---- materials ---------------------------------------------------------------------------
typedef std::map<int, double> Mix;
struct MRef { std::vector<std::string> names; std::map<std::string, Mix> mix; };
Mix mixture(S& s) { if(coin(s, 0.08)) return Mix(); /* nothing, a vacuum */ int k; const int* c = nuclei(k); Mix f; int q = 1 + (int)s.below(4); while((int)f.size() < q) f[c[s.below(k)]] = uni(s, 0.1, 1); double t = 0; for(auto& x : f) t += x.second; for(auto& x : f) x.second /= t; return f; }
void check_materials(S& s, MaterialModel const& m, MRef const& r) {
  for(size_t i = 0; i < r.names.size(); ++i) {
    auto& n = r.names[i]; auto& f = r.mix.at(n); const char* c = n.c_str(); SIM_CHECK(m.HasMaterial(n) && m.HasMaterial((int)i) && m.GetMaterialId(n) == (int)i && m.GetMaterialName((int)i) == n, "material-names", "material %s is not number %zu", c, i);
    int id = (int)i; double np = 0, nn = 0, na = 0, x0 = 0; std::vector<PT> want; for(auto& x : f) { want.push_back((PT)x.first); int Z = (x.first / 10000) % 1000, A = (x.first / 10) % 1000; double mm = MaterialModel::GetMolarMass((PT)x.first); np += x.second / mm * Z; nn += x.second / mm * (A - Z); na += x.second / mm * A; x0 += x.second / (716.4 * A / (Z * (Z + 1) * std::log(287. / std::sqrt((double)Z)))); }
    if(nn > 0) want.push_back(PT::Neutron); if(na > 0) want.push_back(PT::Nucleon); if(np > 0) { want.push_back(PT::PPlus); want.push_back(PT::EMinus); } auto sorted = [](std::vector<PT> v) { std::sort(v.begin(), v.end()); return v; };
    SIM_CHECK(sorted(m.GetMaterialTargets(id)) == sorted(want), "material-targets", "the targets of material %s are not those of its composition", c); SIM_CHECK(sorted(m.GetMaterialConstituents(id)) == sorted(want), "material-targets", "the constituents of material %s are not those of its composition", c);
    auto frac = [&](PT t, double mass, double part) { double a = m.GetTargetMassFraction(id, t), b = m.GetTargetParticleFraction(id, t); SIM_CHECK(near9(a, mass) && near9(b, part), "material-fraction", "material %s holds %.9g by mass and %.9g per gram of target %d, its composition %.9g and %.9g", c, a, b, (int)t, mass, part);
      std::vector<PT> one{t}; SIM_CHECK(m.GetTargetMassFraction(id, one).at(0) == a && m.GetTargetParticleFraction(id, one).at(0) == b && m.GetTargetMassFraction(id, one.begin(), one.end()).at(0) == a && m.GetTargetParticleFraction(id, one.begin(), one.end()).at(0) == b, "material-fraction", "material %s answers differently for a list of targets", c); };
    const double NA = utilities::Constants::avogadro; for(auto& x : f) frac((PT)x.first, x.second, NA * x.second / MaterialModel::GetMolarMass((PT)x.first));
    frac(PT::Neutron, nn * MaterialModel::GetMolarMass(PT::Neutron), nn * NA); frac(PT::PPlus, np * MaterialModel::GetMolarMass(PT::PPlus), np * NA); frac(PT::Nucleon, na * MaterialModel::GetMolarMass(PT::Nucleon), na * NA); frac(PT::EMinus, np * MaterialModel::GetMolarMass(PT::EMinus), np * NA);
    int k; const int* cc = nuclei(k); for(int j = 0; j < k; ++j) if(!f.count(cc[j])) frac((PT)cc[j], 0, 0); frac(PT::K0, 0, 0);
    SIM_CHECK(near9(m.GetMaterialRadiationLength(id), 1 / x0), "radiation-length", "the radiation length of material %s is %.9g, that of its composition %.9g", c, m.GetMaterialRadiationLength(id), 1 / x0);
    if(f.empty()) continue; std::vector<PT> ask; for(auto& x : f) ask.push_back((PT)x.first); if(coin(s)) ask.push_back(PT::Nucleon); if(coin(s)) ask.push_back((PT)1000902320); std::vector<double> rf; SIM_CHECK(attempt([&] { rf = coin(s) ? m.GetTargetRadiationFraction(id, ask) : m.GetTargetRadiationFraction(id, ask.begin(), ask.end()); }), "radiation-fraction", "material %s does not give the shares of its targets in the radiation length", c);
    for(size_t j = 0; j < ask.size(); ++j) { int t = (int)ask[j]; double w = 0; if(f.count(t)) { int Z = (t / 10000) % 1000, A = (t / 10) % 1000; w = f.at(t) / (716.4 * A / (Z * (Z + 1) * std::log(287. / std::sqrt((double)Z)))) / x0; } SIM_CHECK(rf.size() == ask.size() && near9(rf[j], w), "radiation-fraction", "the share of target %d in the radiation length of material %s is %.9g, expected %.9g", t, c, rf.size() > j ? rf[j] : -1, w); }
  }
  SIM_CHECK(!m.HasMaterial((int)r.names.size()) && !m.HasMaterial("NOSUCH") && !m.HasMaterial(-1), "material-names", "a material exists that was not added");
}
void add_ref(MRef& r, std::string const& n, Mix const& f) { if(!r.mix.count(n)) r.names.push_back(n); r.mix[n] = f; }
void materials_run() {
  S s(sim::u64()); sim::set_step_limit(400000000, "using materials"); MaterialModel m; MRef r; std::vector<std::pair<MaterialModel, MRef>> kept; int n = 2 + (int)sim::log_uniform(14);
  for(int k = 0; k < n; ++k) {
    switch(sim::choose_w({6, 4, 3, 1, 1, 1})) {
      case 0: { char b[16]; snprintf(b, sizeof b, "M%d", (int)sim::choose(5)); Mix f = mixture(s); sim::probe(r.mix.count(b) ? "material-redefined" : "material-added"); sim::log("add %s %zu", b, f.size()); m.AddMaterial(b, f); add_ref(r, b, f); break; }
      case 1: check_materials(s, m, r); break;
      case 2: { // from a file, possibly over existing ones, possibly refused part way
        std::string t; std::vector<std::pair<std::string, Mix>> in; int q = 1 + sim::choose(3); int bad = sim::chance(0.3) ? (int)sim::choose(q) : -1;
        for(int i = 0; i < q; ++i) { char b[64]; snprintf(b, sizeof b, "M%d", (int)sim::choose(7)); Mix f = mixture(s); if(i == bad) { t += std::string(b) + " 2\n1000010010 x\n"; break; } snprintf(b + 8, 32, " %zu\n", f.size()); t += std::string(b) + (b + 8); for(auto& x : f) { char l[64]; snprintf(l, sizeof l, "%d %.17g%s\n", x.first, x.second, coin(s) ? " # note" : ""); t += l; if(coin(s, 0.1)) t += "# comment\n"; } in.push_back({b, f}); }
        std::string p = sim::scratch() + "/mat.dat"; sim::spit(p, t); bool ok = attempt([&] { m.AddModelFile(coin(s) ? p : sim::scratch() + "/mat"); }); SIM_CHECK(ok == (bad < 0), "material-file", ok ? "a malformed material file was accepted" : "a correct material file was refused"); for(auto& x : in) add_ref(r, x.first, x.second); if(bad >= 0) sim::fault("malformed-file"); sim::probe("material-file"); break; }
      case 3: { bool ok = attempt([&] { m.AddModelFile(sim::scratch() + "/none"); }); SIM_CHECK(!ok, "material-file", "a missing material file was accepted"); break; }
      case 4: kept.push_back({m, r}); break;
      case 5: if(!kept.empty()) { auto& x = kept[sim::choose(kept.size())]; if(sim::chance(0.5)) { m = x.first; r = x.second; } else { Mix f = mixture(s); x.first.AddMaterial("M1", f); add_ref(x.second, "M1", f); } sim::probe("material-copy"); } break;
    }
  }
  check_materials(s, m, r); for(auto& x : kept) check_materials(s, x.first, x.second);
  MaterialModel f; for(auto& x : r.names) f.AddMaterial(x, r.mix[x]); MRef r2 = r; check_materials(s, f, r2); sim::trivial(r.names.empty());
}
// ---- detectors ---------------------------------------------------------------------------
struct DRef { MaterialModel mat; std::vector<DetectorSector> sec; GeometryPosition o; math::Quaternion q; std::string path; };
std::shared_ptr<DetectorModel> fresh(DRef const& r) { auto d = std::make_shared<DetectorModel>(); d->SetPath(r.path); d->SetMaterials(r.mat); d->SetSectors(r.sec); d->SetDetectorOrigin(r.o); d->SetDetectorRotation(r.q); return d; }
double gauss(std::function<double(double)> f, double a, double b) { static const double x[8] = {0.0950125098376374, 0.2816035507792589, 0.4580167776572274, 0.6178762444026438, 0.7554044083550030, 0.8656312023878318, 0.9445750230732326, 0.9894009349916499}, w[8] = {0.1894506104550685, 0.1826034150449236, 0.1691565193950025, 0.1495959888165767, 0.1246289712555339, 0.0951585116824928, 0.0622535239386479, 0.0271524594117541}; double m = 0.5 * (a + b), h = 0.5 * (b - a), t = 0; for(int i = 0; i < 8; ++i) t += w[i] * (f(m + h * x[i]) + f(m - h * x[i])); return t * h; }
// places along the line where any sector begins or ends
std::vector<double> cuts(std::vector<DetectorSector> const& sec, V3 a, V3 d, double lo, double hi) { std::vector<double> c{lo, hi}; for(auto& x : sec) for(auto& i : x.geo->Intersections(a, d)) if(i.distance > lo && i.distance < hi) c.push_back(i.distance); std::sort(c.begin(), c.end()); return c; }
// column depth by integrating the density between those places
double column(DetectorModel const& d, std::vector<DetectorSector> const& sec, V3 a, V3 u, double L) {
  double t = 0; auto c = cuts(sec, a, u, 0, L); for(size_t i = 0; i + 1 < c.size(); ++i) { double w = c[i + 1] - c[i]; if(w < 1e-9) continue; int parts = 1 + (int)(w / 10); for(int k = 0; k < parts; ++k) t += gauss([&](double x) { return d.GetMassDensity(d.ToDet(GeometryPosition(a + u * x))); }, c[i] + w * k / parts, c[i] + w * (k + 1) / parts); } return t * 100; }
void check_detector(S& s, DetectorModel const& d, DRef const& r, World const& w) {
  auto f = fresh(r); uint64_t q = s.next(); Ans a = answers(d, w, q), b = answers(*f, w, q); SIM_CHECK(same(a, b), "detector-history", "a changed detector answers differently from a new one with the same contents: %s", diff(b, a).c_str());
  SIM_CHECK(d == *f, "detector-unequal", "a changed detector compares different from a new one with the same contents");
  for(int i = 0; i < 4; ++i) { V3 p = vec(s, coin(s) ? 150 : 30); const DetectorSector* best = nullptr; for(auto& x : r.sec) if(x.geo->IsInside(p) && (!best || x.level > best->level)) best = &x; if(!best) continue; auto g = d.GetContainingSector(d.ToDet(GeometryPosition(p))); 
    if(g.name != best->name) { // unless rounding decides: the same a little further on, in other places
      bool edge = false; for(int z = 0; z < 4 && !edge; ++z) { V3 e = p + unitv(s) * 1e-5; const DetectorSector* b2 = nullptr; for(auto& x : r.sec) if(x.geo->IsInside(e) && (!b2 || x.level > b2->level)) b2 = &x; if(!b2 || b2->name != best->name || d.GetContainingSector(d.ToDet(GeometryPosition(e))).name == best->name) edge = true; }
      if(!edge) sim::fail("containing-sector", "the point (%g, %g, %g) is reported in sector %s, the innermost one around it is %s", p.GetX(), p.GetY(), p.GetZ(), g.name.c_str(), best->name.c_str()); }
    double want = best->density->Evaluate(p), got = d.GetMassDensity(d.ToDet(GeometryPosition(p))); if(g.name == best->name) SIM_CHECK(near9(got, want), "density", "the density at (%g, %g, %g) is %.9g, that of the sector there %.9g", p.GetX(), p.GetY(), p.GetZ(), got, want); }
}
void detectors_run() {
  S s(sim::u64()); sim::set_step_limit(4000000000ull, "using detectors"); World w = world(s); auto d = std::make_shared<DetectorModel>(); DRef r; r.mat = d->GetMaterials(); materials(s, r.mat, 4); d->SetMaterials(r.mat); r.sec = d->GetSectors(); r.o = d->GetDetectorOrigin(); r.q = d->GetDetectorRotation(); r.path = d->GetPath(); auto universe = r.sec;
  auto sector = [&](int level, std::string name) { DetectorSector q; q.name = name; char b[16]; snprintf(b, sizeof b, "MAT%d", (int)s.below(4)); q.material_id = r.mat.GetMaterialId(b); q.level = level; double R = mag(s, 10, 200); q.geo = coin(s, 0.5) ? solid(s, R) : shape(s, R); q.density = coin(s, 0.6) ? std::shared_ptr<DensityDistribution>(std::make_shared<ConstantDensityDistribution>(uni(s, 0.5, 10))) : density(s, nullptr, 0.05); return q; };
  int serial = 0, n = 3 + (int)sim::log_uniform(14); auto name = [&] { char b[16]; snprintf(b, sizeof b, "s%d", serial++); return std::string(b); };
  auto level = [&] { for(;;) { int l = (int)s.below(60); bool used = false; for(auto& x : r.sec) used |= x.level == l; if(!used) return l; } };
  for(int k = 0; k < n; ++k) {
    switch(sim::choose_w({8, 4, 2, 1, 2, 2, 1, 2})) {
      case 0: { if(r.sec.size() > 9) break; auto q = sector(level(), name()); d->AddSector(q); r.sec.push_back(q); sim::log("add level %d", q.level); break; }
      case 1: check_detector(s, *d, r, w); break;
      case 2: { // refused: the level or name exists
        auto& o = r.sec[sim::choose(r.sec.size())]; bool lv = coin(s); auto q = sector(lv ? o.level : level(), lv ? name() : o.name); bool ok = attempt([&] { d->AddSector(q); }); SIM_CHECK(!ok, "duplicate-sector", "a second sector with the same %s was accepted", lv ? "level" : "name"); sim::fault("refused-sector"); break; }
      case 3: { d->ClearSectors(); r.sec.clear(); if(coin(s)) { d->SetSectors(universe); r.sec = universe; } else for(auto& x : universe) { d->AddSector(x); r.sec.push_back(x); } sim::probe("cleared"); break; }
      case 4: { // a new list, possibly refused
        std::vector<DetectorSector> v = universe; int c = sim::choose(5); bool bad = sim::chance(0.35); DRef t = r; r.sec = v; for(int i = 0; i < c; ++i) { auto q = sector(level(), name()); v.push_back(q); r.sec.push_back(q); } if(bad) { auto q = sector(level(), name()); if(coin(s)) q.level = v[s.below(v.size())].level; else q.name = v[s.below(v.size())].name; v.insert(v.begin() + s.below(v.size() + 1), q); } 
        r.sec = t.sec; bool ok = attempt([&] { d->SetSectors(v); }); SIM_CHECK(ok == !bad, "duplicate-sector", ok ? "a list of sectors with a repeated level or name was accepted" : "a correct list of sectors was refused"); if(ok) r.sec = v; else sim::fault("refused-sectors"); break; }
      case 5: { GeometryPosition o(vec(s, 20)); d->SetDetectorOrigin(o); r.o = o; if(coin(s)) { auto q = quat(s); d->SetDetectorRotation(q); r.q = q; } break; }
      case 6: { materials(s, r.mat, 4); d->SetMaterials(r.mat); sim::probe("materials-replaced"); break; }
      case 7: { V3 p = vec(s, 150), u = unitv(s); double L = mag(s, 1, 300); double got = d->GetColumnDepthInCGS(d->ToDet(GeometryPosition(p)), d->ToDet(GeometryPosition(p + u * L))), want = column(*d, r.sec, p, u, L); SIM_CHECK(std::fabs(got - want) <= 1e-4 * std::max(got, want) + 1e-3, "column-depth", "the column depth over %.9g m is %.9g, the integral of the density %.9g", L, got, want); sim::probe("column"); break; }
    }
  }
  check_detector(s, *d, r, w);
}
// ---- paths ---------------------------------------------------------------------------------
struct PRef { V3 a, b, u; double L = 0; bool ainf = false, binf = false; };
typedef std::vector<PT> Ts; typedef std::vector<double> Xs;
struct Phys { Ts t; Xs x; double dl; };
double len(V3 v) { return v.magnitude(); }
bool nearv(V3 a, V3 b, double tol) { return len(a - b) <= tol; }
void path_history(S& s, std::shared_ptr<const DetectorModel> d1, std::shared_ptr<const DetectorModel> d2, int n) {
  std::shared_ptr<const DetectorModel> d = d1; Path p; PRef r; Phys ph; ph.t = {PT::Nucleon, (PT)1000080160}; ph.x = {mag(s, 1e-31, 1e-28), mag(s, 1e-31, 1e-28)}; ph.dl = coin(s) ? mag(s, 10, 1e4) : std::numeric_limits<double>::infinity();
  const double INF = std::numeric_limits<double>::infinity(); bool set = false; bool ray = false;
  auto newpoints = [&] { // a new line, or another stretch of the same one
    int how = set && !r.ainf ? (int)sim::choose(5) : (int)sim::choose(2); V3 a, u; double L; 
    if(how >= 2) { a = r.a + r.u * uni(s, -100, 100); u = coin(s) ? r.u : r.u * -1; if(how == 4) a = a + vec(s, 5) ; L = mag(s, 1, 300); sim::probe("same-line"); } else { a = vec(s, 200); u = coin(s, 0.4) ? vec(s, 20) - a : unitv(s); if(len(u) < 1) u = V3(0, 0, 1); u.normalize(); L = mag(s, 1, 500); }
    bool inf = sim::chance(0.1); bool det = coin(s); bool two = !inf && sim::chance(0.4); V3 b = a + u * L; if(inf) L = INF;
    sim::log("points %d %d %d", how, det, two);
    if(!p.HasDetectorModel()) det = false; // the frames are related by a detector only
    if(two) { if(det) p.SetPoints(d->ToDet(GeometryPosition(a)), d->ToDet(GeometryPosition(b))); else p.SetPoints(GeometryPosition(a), GeometryPosition(b)); }
    else { if(det) p.SetPointsWithRay(d->ToDet(GeometryPosition(a)), d->ToDet(GeometryDirection(u)), L); else { V3 v = coin(s) ? u : u * 3; p.SetPointsWithRay(GeometryPosition(a), GeometryDirection(v), L); } }
    ray = !two; r.a = a; r.u = u; r.b = b; r.L = L; r.ainf = false; r.binf = inf; set = true; };
  auto check = [&](const char* after) { double tol = 1e-7; 
    if(!r.ainf) SIM_CHECK(nearv(p.GetGeoFirstPoint().get(), r.a, tol), "path-points", "after %s the path starts %.9g m away from where it should", after, len(p.GetGeoFirstPoint().get() - r.a));
    if(!r.binf) SIM_CHECK(nearv(p.GetGeoLastPoint().get(), r.b, tol), "path-points", "after %s the path ends %.9g m away from where it should", after, len(p.GetGeoLastPoint().get() - r.b));
    SIM_CHECK(nearv(p.GetGeoDirection().get(), r.u, 1e-9), "path-points", "after %s the path points another way", after); SIM_CHECK(r.L == INF ? p.GetDistance() == INF : std::fabs(p.GetDistance() - r.L) <= tol, "path-points", "after %s the path is %.9g m long instead of %.9g m", after, p.GetDistance(), r.L);
    if(p.HasDetectorModel()) { if(!r.ainf) SIM_CHECK(nearv(p.GetFirstPoint().get(), d->ToDet(GeometryPosition(r.a)).get(), tol), "path-points", "after %s the start of the path differs between the coordinate frames", after); if(!r.binf) SIM_CHECK(nearv(p.GetLastPoint().get(), d->ToDet(GeometryPosition(r.b)).get(), tol), "path-points", "after %s the end of the path differs between the coordinate frames", after); SIM_CHECK(nearv(p.GetDirection().get(), d->ToDet(GeometryDirection(r.u)).get(), 1e-9), "path-points", "after %s the direction of the path differs between the coordinate frames", after); } };
  // a new path with the same ends
  auto make = [&] { if(!r.ainf) return Path(d, GeometryPosition(p.GetGeoFirstPoint()), GeometryDirection(p.GetGeoDirection()), r.binf ? INF : p.GetDistance()); V3 m = p.GetGeoDirection().get() * -1; Path q(d, GeometryPosition(p.GetGeoLastPoint()), GeometryDirection(m), INF); q.Flip(); return q; };
  auto agree = [&](const char* what, std::function<double(Path&)> f) { if(r.L < 1e-2) return (double)NAN; // too short to be rebuilt from its ends
    Path q = make(); double a = 0, b = 0; bool oa = attempt([&] { a = f(p); }), ob = attempt([&] { b = f(q); }); SIM_CHECK(oa == ob, "path-history", "%s %s on a path with a history and %s on a new one between the same points", what, oa ? "works" : "is refused", ob ? "works" : "is refused"); if(oa && !(a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-6 * std::max(std::fabs(a), std::fabs(b)) + 1e-6)) sim::fail("path-history", "%s is %.12g on a path with a history and %.12g on a new one between the same points", what, a, b); return oa ? a : NAN; };
  if(coin(s, 0.8)) p.SetDetectorModel(d);
  newpoints(); if(!p.HasDetectorModel()) { check("SetPoints without a detector"); p.SetDetectorModel(d); }
  check("construction");
  for(int k = 0; k < n; ++k) {
    double x = mag(s, 1e-2, 300) * (coin(s, 0.15) ? -1 : 1); int op = sim::choose_w({3, 2, 1, 6, 4, 3, 3, 12, 3, 1, 2}); sim::state((uint64_t)op * 31 + k);
    auto ext_end = [&](double y) { r.L += y; r.b = r.b + r.u * y; if(r.L < 0) { r.L = 0; r.b = r.a; } }; auto ext_start = [&](double y) { r.L += y; r.a = r.a + r.u * -y; if(r.L < 0) { r.L = 0; r.a = r.b; } };
    switch(op) {
      case 0: newpoints(); check("setting points"); break;
      case 1: p.Flip(); std::swap(r.a, r.b); std::swap(r.ainf, r.binf); r.u = r.u * -1; check("flipping"); break;
      case 2: { V3 o = r.ainf ? r.b : r.a; auto g = d->GetOuterBounds(d->ToDet(GeometryPosition(o)), d->ToDet(GeometryDirection(r.u))); double lo = r.ainf ? -INF : 0, hi = r.ainf ? 0 : r.L; if(g.intersections.size() < 2) { p.ClipToOuterBounds(); check("clipping outside the detector"); break; } double b0 = g.intersections.front().distance, b1 = g.intersections.back().distance; if(b0 > b1) std::swap(b0, b1); if(std::max(lo, b0) >= std::min(hi, b1) - 1e-3) break; // they do not overlap
        p.ClipToOuterBounds(); double n0 = std::max(lo, b0), n1 = std::min(hi, b1); r.a = o + r.u * n0; r.b = o + r.u * n1; r.ainf = r.binf = false; r.L = n1 - n0; sim::probe("clipped"); check("clipping"); break; }
      case 3: { int w = sim::choose(4); bool e = w & 1, sh = w & 2; bool inf = e ? r.binf : r.ainf; bool ok = attempt([&] { if(e) { if(sh) p.ShrinkFromEndByDistance(x); else p.ExtendFromEndByDistance(x); } else { if(sh) p.ShrinkFromStartByDistance(x); else p.ExtendFromStartByDistance(x); } }); SIM_CHECK(ok == !inf, "path-infinite", ok ? "an infinite end was moved" : "a finite end could not be moved"); if(!ok) break; if(r.L == INF) { if(e) r.b = r.b + r.u * (sh ? -x : x); else r.a = r.a + r.u * (sh ? x : -x); } else if(e) ext_end(sh ? -x : x); else ext_start(sh ? -x : x); check("moving an end by a distance"); break; }
      case 4: { if(r.ainf || r.binf) break; double t = std::fabs(x); int w = sim::choose(4); switch(w) { case 0: p.ExtendFromEndToDistance(t); if(t > r.L) ext_end(t - r.L); break; case 1: p.ExtendFromStartToDistance(t); if(t > r.L) ext_start(t - r.L); break; case 2: p.ShrinkFromEndToDistance(t); if(t < r.L) ext_end(t - r.L); break; case 3: p.ShrinkFromStartToDistance(t); if(t < r.L) ext_start(t - r.L); break; } check("moving an end to a distance"); break; }
      case 5: case 6: { // by or to a depth: the depth between the ends changes by that much
        if(r.ainf || r.binf || r.L == 0) break; bool inter = op == 6; auto depth = [&](Path& q) { return inter ? q.GetInteractionDepthInBounds(ph.t, ph.x, ph.dl) : q.GetColumnDepthInBounds(); }; double D0 = agree("the depth between the ends", depth); if(!(D0 > (inter ? 1e-6 : 1)) || !std::isfinite(D0)) break; /* the void between worlds: nothing but rounding */ double y = D0 * uni(s, 0.05, 0.9); int w = sim::choose(8); bool e = w & 1, sh = w & 2, to = w & 4; V3 end = e ? r.b : r.a; V3 dir = (e != sh) ? r.u : r.u * -1; 
        double dist = 0; try { dist = inter ? d->DistanceForInteractionDepthFromPoint(d->ToDet(GeometryPosition(end)), d->ToDet(GeometryDirection(dir)), y, ph.t, ph.x, ph.dl) : d->DistanceForColumnDepthFromPoint(d->ToDet(GeometryPosition(end)), d->ToDet(GeometryDirection(dir)), y); } catch(std::exception const&) { break; } if(!std::isfinite(dist) || dist > 1e4) break;
        double to_y = sh ? D0 - y : D0 + y; Path c = p; 
        if(!inter) { if(to) { if(e) { if(sh) p.ShrinkFromEndToColumnDepth(to_y); else p.ExtendFromEndToColumnDepth(to_y); } else { if(sh) p.ShrinkFromStartToColumnDepth(to_y); else p.ExtendFromStartToColumnDepth(to_y); } } else { if(e) { if(sh) p.ShrinkFromEndByColumnDepth(y); else p.ExtendFromEndByColumnDepth(y); } else { if(sh) p.ShrinkFromStartByColumnDepth(y); else p.ExtendFromStartByColumnDepth(y); } } }
        else { if(to) { if(e) { if(sh) p.ShrinkFromEndToInteractionDepth(to_y, ph.t, ph.x, ph.dl); else p.ExtendFromEndToInteractionDepth(to_y, ph.t, ph.x, ph.dl); } else { if(sh) p.ShrinkFromStartToInteractionDepth(to_y, ph.t, ph.x, ph.dl); else p.ExtendFromStartToInteractionDepth(to_y, ph.t, ph.x, ph.dl); } } else { if(e) { if(sh) p.ShrinkFromEndByInteractionDepth(y, ph.t, ph.x, ph.dl); else p.ExtendFromEndByInteractionDepth(y, ph.t, ph.x, ph.dl); } else { if(sh) p.ShrinkFromStartByInteractionDepth(y, ph.t, ph.x, ph.dl); else p.ExtendFromStartByInteractionDepth(y, ph.t, ph.x, ph.dl); } } }
        double D1 = agree("the depth after moving an end", depth); SIM_CHECK(std::fabs(D1 - to_y) <= 2e-3 * D0, "path-depth", "moving an end of a path of %s depth %.9g to %.9g gives %.9g", inter ? "interaction" : "column", D0, to_y, D1);
        if(e) { V3 g = p.GetGeoLastPoint().get(); SIM_CHECK(std::fabs(len(math::cross_product(g - r.a, r.u))) <= 1e-6, "path-points", "moving an end leaves the line"); r.b = g; } else { V3 g = p.GetGeoFirstPoint().get(); SIM_CHECK(std::fabs(len(math::cross_product(g - r.b, r.u))) <= 1e-6, "path-points", "moving an end leaves the line"); r.a = g; } r.L = math::scalar_product(r.b - r.a, r.u); check("moving an end by a depth"); sim::probe("moved-by-depth"); break; }
      case 7: { double y = std::fabs(x); int w = sim::choose(12); double cd = mag(s, 1, 1e5); switch(w) {
          case 0: agree("the column depth", [&](Path& q) { return q.GetColumnDepthInBounds(); }); break; case 1: agree("the interaction depth", [&](Path& q) { return q.GetInteractionDepthInBounds(ph.t, ph.x, ph.dl); }); break;
          case 2: agree("the column depth from the start", [&](Path& q) { return q.GetColumnDepthFromStartInBounds(y); }); agree("the column depth from the end", [&](Path& q) { return q.GetColumnDepthFromEndInBounds(y); }); break;
          case 3: agree("the column depth along the path", [&](Path& q) { return q.GetColumnDepthFromStartAlongPath(x); }); agree("the column depth beyond the end", [&](Path& q) { return q.GetColumnDepthFromEndAlongPath(x); }); break;
          case 4: agree("the column depth before the start", [&](Path& q) { return q.GetColumnDepthFromStartInReverse(x); }); agree("the column depth back from the end", [&](Path& q) { return q.GetColumnDepthFromEndInReverse(x); }); break;
          case 5: agree("the interaction depth from the start", [&](Path& q) { return q.GetInteractionDepthFromStartInBounds(y, ph.t, ph.x, ph.dl); }); agree("the interaction depth from the end", [&](Path& q) { return q.GetInteractionDepthFromEndInBounds(y, ph.t, ph.x, ph.dl); }); break;
          case 6: agree("the interaction depth along the path", [&](Path& q) { return q.GetInteractionDepthFromStartAlongPath(x, ph.t, ph.x, ph.dl); }); agree("the interaction depth beyond the end", [&](Path& q) { return q.GetInteractionDepthFromEndAlongPath(x, ph.t, ph.x, ph.dl); }); agree("the interaction depth before the start", [&](Path& q) { return q.GetInteractionDepthFromStartInReverse(x, ph.t, ph.x, ph.dl); }); agree("the interaction depth back from the end", [&](Path& q) { return q.GetInteractionDepthFromEndInReverse(x, ph.t, ph.x, ph.dl); }); break;
          case 7: case 8: { bool st = w == 7; double g = agree("the distance for a column depth", [&](Path& q) { return st ? q.GetDistanceFromStartAlongPath(cd) : q.GetDistanceFromEndInReverse(cd); }); if(std::isfinite(g) && g < 1e4) { double c = st ? p.GetColumnDepthFromStartAlongPath(g) : p.GetColumnDepthFromEndInReverse(g); SIM_CHECK(std::fabs(c - cd) <= 2e-3 * cd, "path-inverse", "the column depth over the distance for %.9g is %.9g", cd, c); sim::probe("inverse"); } break; }
          case 9: agree("the distance for a column depth beyond the end", [&](Path& q) { return q.GetDistanceFromEndAlongPath(cd); }); agree("the distance for a column depth before the start", [&](Path& q) { return q.GetDistanceFromStartInReverse(cd); }); agree("the distance in bounds", [&](Path& q) { return q.GetDistanceFromStartInBounds(cd); }); agree("the distance in bounds from the end", [&](Path& q) { return q.GetDistanceFromEndInBounds(cd); }); break;
          case 10: { double id = mag(s, 1e-4, 10); double g = agree("the distance for an interaction depth", [&](Path& q) { return q.GetDistanceFromStartAlongPath(id, ph.t, ph.x, ph.dl); }); agree("the distance for an interaction depth from the end", [&](Path& q) { return q.GetDistanceFromEndInBounds(id, ph.t, ph.x, ph.dl); }); agree("the distance for an interaction depth in bounds", [&](Path& q) { return q.GetDistanceFromStartInBounds(id, ph.t, ph.x, ph.dl); }); agree("the distance for an interaction depth beyond the end", [&](Path& q) { return q.GetDistanceFromEndAlongPath(id, ph.t, ph.x, ph.dl); }); agree("the distance for an interaction depth in reverse", [&](Path& q) { return q.GetDistanceFromEndInReverse(id, ph.t, ph.x, ph.dl) + q.GetDistanceFromStartInReverse(id, ph.t, ph.x, ph.dl); });
            if(std::isfinite(g) && g < 1e4) { double c = p.GetInteractionDepthFromStartAlongPath(g, ph.t, ph.x, ph.dl); SIM_CHECK(std::fabs(c - id) <= 2e-3 * id, "path-inverse", "the interaction depth over the distance for %.9g is %.9g", id, c); } break; }
          case 11: { if(r.ainf || r.binf || r.L > 1000) break; Path q = make(); double got = p.GetColumnDepthInBounds(), want = column(*d, d->GetSectors(), r.a, r.u, r.L); SIM_CHECK(std::fabs(got - want) <= 1e-4 * std::max(got, want) + 1e-3, "column-depth", "the column depth of a path of %.9g m is %.9g, the integral of the density %.9g", r.L, got, want); sim::probe("column"); break; }
        } break; }
      case 8: { // bounds, in both frames
        if(r.ainf || r.binf) break; double t = uni(s, -0.5, 1.5) * (r.L + 1); V3 q = r.a + r.u * t; bool in = t >= 0 && t <= r.L; if(std::fabs(t) < 2e-3 || std::fabs(t - r.L) < 2e-3) break; SIM_CHECK(p.IsWithinBounds(GeometryPosition(q)) == in && p.IsWithinBounds(d->ToDet(GeometryPosition(q))) == in, "path-bounds", "a point %.9g m along a path of %.9g m is %s", t, r.L, in ? "reported outside" : "reported inside");
        double g = p.GetDistanceFromStartInBounds(GeometryPosition(q)), h = p.GetDistanceFromStartInBounds(d->ToDet(GeometryPosition(q))); SIM_CHECK(std::fabs(g - std::max(0.0, t)) <= 1e-6 && std::fabs(h - g) <= 1e-6, "path-bounds", "a point %.9g m along a path is reported at %.9g m and %.9g m", t, g, h); break; }
      case 9: { // the path is used with another detector: it keeps its ends in the detector's frame
        if(r.ainf || r.binf) break; DetectorPosition a = p.GetFirstPoint(), b = p.GetLastPoint(); DetectorDirection u = p.GetDirection(); d = d == d1 ? d2 : d1; p.SetDetectorModel(d); r.a = d->ToGeo(a).get(); r.b = d->ToGeo(b).get(); r.u = d->ToGeo(u).get(); sim::probe("other-detector"); check("changing the detector"); break; }
      case 10: { if(coin(s)) p.EnsureIntersections(); else p.ComputeIntersections(); auto i = p.GetIntersections(); if(coin(s, 0.3)) p.SetIntersections(i); break; }
    }
  }
}
void paths_run() {
  S s(sim::u64()); sim::set_step_limit(8000000000ull, "using paths"); auto d1 = detmodel(s), d2 = detmodel(s); int n = 4 + (int)sim::log_uniform(30);
  if(sim::chance(0.25)) { std::vector<std::function<void()>> b; std::vector<S> ss; for(int i = 0; i < 2; ++i) ss.push_back(S(sim::u64())); for(int i = 0; i < 2; ++i) b.push_back([&, i] { path_history(ss[i], d1, d2, n / 2 + 1); }); sim::ThreadOpts o; o.max_gap = 1 << 14; o.step_limit = 8000000000ull; sim::run_threads(b, o); }
  else path_history(s, d1, d2, n);
}
sim::Reg r1("materials", materials_run, "histories of material tables"); sim::Reg r2("detectors", detectors_run, "histories of detectors"); sim::Reg r3("pathhist", paths_run, "histories of paths");
}
