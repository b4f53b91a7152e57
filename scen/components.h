// Seeded construction of every archivable component of the library, and the observable answers of each.
// Everything is a function of a sim::Stream, so the same component can be built again for reference.
#pragma once
#include "sim.h"
#include <cmath>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <cereal/cereal.hpp>
#include <cereal/archives/binary.hpp>
#include <cereal/types/memory.hpp>
#include <cereal/types/polymorphic.hpp>
#include <cereal/types/set.hpp>
#include <cereal/types/map.hpp>
#include <cereal/types/vector.hpp>
#include <cereal/types/array.hpp>
#include <cereal/types/string.hpp>
#include "SIREN/utilities/Random.h"
#include "SIREN/utilities/Interpolator.h"
#include "SIREN/dataclasses/InteractionRecord.h"
#include "SIREN/dataclasses/InteractionSignature.h"
#include "SIREN/math/Vector3D.h"
#include "SIREN/math/Quaternion.h"
#include "SIREN/math/Matrix3D.h"
#include "SIREN/math/Polynomial.h"
#include "SIREN/math/EulerQuaternionConversions.h"
#include "SIREN/geometry/Geometry.h"
#include "SIREN/geometry/Placement.h"
#include "SIREN/geometry/Box.h"
#include "SIREN/geometry/Sphere.h"
#include "SIREN/geometry/Cylinder.h"
#include "SIREN/geometry/Cone.h"
#include "SIREN/geometry/Trd.h"
#include "SIREN/geometry/Trap.h"
#include "SIREN/geometry/Para.h"
#include "SIREN/geometry/Torus.h"
#include "SIREN/geometry/Polycone.h"
#include "SIREN/geometry/Polyhedra.h"
#include "SIREN/geometry/GenericPolycone.h"
#include "SIREN/geometry/CutTube.h"
#include "SIREN/geometry/EllipticalTube.h"
#include "SIREN/geometry/Ellipsoid.h"
#include "SIREN/geometry/ExtrPoly.h"
#include "SIREN/geometry/GeometryMesh.h"
#include "SIREN/geometry/BooleanGeometry.h"
#include "SIREN/detector/DetectorModel.h"
#include "SIREN/detector/MaterialModel.h"
#include "SIREN/detector/ConstantDensityDistribution.h"
#include "SIREN/detector/RadialAxisPolynomialDensityDistribution.h"
#include "SIREN/detector/RadialAxisExponentialDensityDistribution.h"
#include "SIREN/detector/CartesianAxisPolynomialDensityDistribution.h"
#undef SIREN_CartesianAxisDensityDistribution_H
#include "SIREN/detector/CartesianAxisExponentialDensityDistribution.h"
#include "SIREN/detector/PolynomialDistribution1D.h"
#include "SIREN/detector/ExponentialDistribution1D.h"
#include "SIREN/detector/ConstantDistribution1D.h"
#undef SIREN_Cone_H
#include "SIREN/distributions/Distributions.h"
#include "SIREN/distributions/primary/energy/PowerLaw.h"
#include "SIREN/distributions/primary/energy/Monoenergetic.h"
#include "SIREN/distributions/primary/energy/TabulatedFluxDistribution.h"
#include "SIREN/distributions/primary/energy/ModifiedMoyalPlusExponentialEnergyDistribution.h"
#include "SIREN/distributions/primary/energy/PiDARNuEDistribution.h"
#include "SIREN/distributions/primary/direction/Cone.h"
#include "SIREN/distributions/primary/direction/FixedDirection.h"
#include "SIREN/distributions/primary/direction/IsotropicDirection.h"
#include "SIREN/distributions/primary/mass/PrimaryMass.h"
#include "SIREN/distributions/primary/helicity/PrimaryNeutrinoHelicityDistribution.h"
#include "SIREN/distributions/primary/area/FixedTargetAreaDistribution.h"
#include "SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h"
#include "SIREN/distributions/primary/PrimaryExternalDistribution.h"
#include "SIREN/distributions/primary/vertex/CylinderVolumePositionDistribution.h"
#include "SIREN/distributions/primary/vertex/SphereVolumePositionDistribution.h"
#include "SIREN/distributions/primary/vertex/PointSourcePositionDistribution.h"
#include "SIREN/distributions/primary/vertex/PrimaryPhysicalVertexDistribution.h"
#include "SIREN/distributions/primary/vertex/PrimaryBoundedVertexDistribution.h"
#include "SIREN/distributions/primary/vertex/RangePositionDistribution.h"
#include "SIREN/distributions/primary/vertex/DecayRangePositionDistribution.h"
#include "SIREN/distributions/primary/vertex/DecayRangeFunction.h"
#include "SIREN/distributions/primary/vertex/ColumnDepthPositionDistribution.h"
#include "SIREN/distributions/primary/vertex/LeptonDepthFunction.h"
#include "SIREN/distributions/primary/vertex/FixedTargetPositionDistribution.h"
#include "SIREN/distributions/secondary/vertex/SecondaryPhysicalVertexDistribution.h"
#include "SIREN/distributions/secondary/vertex/SecondaryBoundedVertexDistribution.h"
#include "SIREN/interactions/DummyCrossSection.h"
#include "SIREN/interactions/ElasticScattering.h"
#include "SIREN/interactions/HNLDipoleFromTable.h"
#include "SIREN/interactions/HNLDecay.h"
#include "SIREN/interactions/HNLDipoleDecay.h"
#include "SIREN/interactions/ElectroweakDecay.h"
#include "SIREN/interactions/CharmMesonDecay.h"
#include "SIREN/interactions/CharmMesonDecay3Body.h"
#include "SIREN/interactions/InteractionCollection.h"
#include "SIREN/injection/Process.h"
namespace comp {
using namespace siren;
typedef dataclasses::ParticleType PT;
struct V { double v, s; V(double x = 0) : v(x), s(std::fabs(x)) {} V(double x, double sc) : v(x), s(sc) {} operator double() const { return v; } }; // an answer and the size of the vector it belongs to
typedef std::vector<V> Ans;
typedef sim::Stream S;
inline double uni(S& s, double a, double b) { return a + (b - a) * s.unit(); }
inline bool coin(S& s, double p = 0.5) { return s.unit() < p; }
inline double mag(S& s, double lo, double hi) { return std::exp(uni(s, std::log(lo), std::log(hi))); }
inline math::Vector3D vec(S& s, double r) { double x = uni(s, -r, r), y = uni(s, -r, r), z = uni(s, -r, r); return math::Vector3D(x, y, z); }
inline math::Vector3D unitv(S& s) { if(s.below(5) == 0) { int k = (int)s.below(3); double sg = coin(s) ? 1 : -1; return math::Vector3D(k == 0 ? sg : 0, k == 1 ? sg : 0, k == 2 ? sg : 0); } double c = uni(s, -1, 1), p = uni(s, 0, 6.283185307), q = std::sqrt(1 - c * c); math::Vector3D u(q * std::cos(p), q * std::sin(p), c); for(int i = 0; i < 10; ++i) { math::Vector3D w(u); w.normalize(); bool st = w.GetX() == u.GetX() && w.GetY() == u.GetY() && w.GetZ() == u.GetZ(); u = w; if(st) break; } return math::Vector3D(u.GetX(), u.GetY(), u.GetZ()); } // normalising it again changes nothing
inline math::Quaternion quat(S& s) { if(s.below(3) == 0) return math::Quaternion(); double a = uni(s, 0, 6), b = uni(s, 0, 3), c = uni(s, 0, 6); return math::QFromZXZr(a, b, c); }
inline geometry::Placement place(S& s, double r) { auto v = s.below(3) == 0 ? math::Vector3D(0, 0, 0) : vec(s, r); return geometry::Placement(v, quat(s)); }

// ---- answers -----------------------------------------------------------------
struct Out {
  Ans a;
  void num(double x) { a.push_back(x); }
  void str(std::string const& x) { uint64_t h = sim::hash_bytes(x.data(), x.size()); double d; memcpy(&d, &h, 8); a.push_back((double)(h >> 11)); (void)d; }
  void vec(math::Vector3D const& v) { double m = v.magnitude(); a.push_back(V(v.GetX(), m)); a.push_back(V(v.GetY(), m)); a.push_back(V(v.GetZ(), m)); }
  template<class C> void arr(C const& c) { double m = 0; for(double x : c) m = std::max(m, std::fabs(x)); for(double x : c) a.push_back(V(x, m)); }
  template<class C> void all(C const& c) { num((double)c.size()); for(auto const& x : c) num((double)(x)); }
  void types(std::vector<PT> const& c) { num((double)c.size()); for(auto x : c) num((double)(int)x); }
  // the order of unordered collections is not an answer
  template<class F> void call(F f) { size_t n = a.size(); try { f(); } catch(std::bad_alloc const&) { throw; } catch(std::exception const&) { a.resize(n); a.push_back(-987654321.0); } }
};
inline bool near(V a, V b) { return a.v == b.v || (std::isnan(a.v) && std::isnan(b.v)) || std::fabs(a.v - b.v) <= 1e-9 * std::min(a.s, b.s); } // up to rounding: a constructor may normalise again
inline bool same(Ans const& a, Ans const& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); ++i) { if(!near(a[i], b[i])) return false; } return true; }
inline uint64_t hash(Ans const& a) { uint64_t h = 7; for(auto& x : a) h = sim::hash_bytes(&x.v, 8, h); return h; }
inline std::string diff(Ans const& a, Ans const& b) { char t[200]; for(size_t i = 0; i < a.size() && i < b.size(); ++i) if(!near(a[i], b[i])) { snprintf(t, sizeof t, "answer %zu is %.17g instead of %.17g", i, a[i].v, b[i].v); return t; } snprintf(t, sizeof t, "%zu answers instead of %zu", a.size(), b.size()); return t; }
inline void put(Out& o, dataclasses::InteractionRecord const& r) { // everything but the identifiers
  o.num((double)(int)r.signature.primary_type); o.num((double)(int)r.signature.target_type); o.types(r.signature.secondary_types);
  o.arr(r.primary_initial_position); o.num(r.primary_initial_time); o.num(r.primary_mass); o.arr(r.primary_momentum); o.num(r.primary_helicity); o.num(r.target_mass); o.num(r.target_helicity);
  o.arr(r.interaction_vertex); o.num(r.interaction_time); o.all(r.secondary_masses); o.num((double)r.secondary_momenta.size()); for(auto& p : r.secondary_momenta) o.arr(p); o.all(r.secondary_helicities); o.all(r.secondary_times); o.num((double)r.secondary_ids.size());
  for(auto& p : r.interaction_parameters) { o.str(p.first); o.num(p.second); }
}
// ---- small world for the distributions that need one ----------------------------
struct World { std::shared_ptr<detector::DetectorModel> det; std::shared_ptr<interactions::InteractionCollection> nu, hnl; };
inline std::shared_ptr<detector::DensityDistribution> density(S& s, std::string* name = nullptr, double steep = 1) {
  std::string dummy; std::string& n = name ? *name : dummy;
  switch(s.below(5)) {
    case 0: n = "ConstantDensityDistribution"; return std::make_shared<detector::ConstantDensityDistribution>(mag(s, 0.1, 20));
    case 1: { n = "RadialAxisPolynomialDensityDistribution"; detector::RadialAxis1D ax(vec(s, 2)); std::vector<double> c; int k = 1 + (int)s.below(3); for(int i = 0; i < k; ++i) c.push_back(i == 0 ? uni(s, 5, 10) : uni(s, 0, 1e-2)); return std::make_shared<detector::RadialAxisPolynomialDensityDistribution>(ax, c); }
    case 2: { n = "RadialAxisExponentialDensityDistribution"; detector::RadialAxis1D ax(vec(s, 2)); double sg = steep * uni(s, 0.01, 0.5); return std::make_shared<detector::RadialAxisExponentialDensityDistribution>(ax, detector::ExponentialDistribution1D(sg, uni(s, 0.5, 3), uni(s, -1, 1))); }
    case 3: { n = "CartesianAxisPolynomialDensityDistribution"; auto u = unitv(s); detector::CartesianAxis1D ax(u, vec(s, 2)); std::vector<double> c; int k = 1 + (int)s.below(3); for(int i = 0; i < k; ++i) c.push_back(i == 0 ? uni(s, 5, 10) : i == 1 ? uni(s, -1e-3, 1e-3) : uni(s, 0, 1e-3)); return std::make_shared<detector::CartesianAxisPolynomialDensityDistribution>(ax, detector::PolynomialDistribution1D(c)); }
    default: { n = "CartesianAxisExponentialDensityDistribution"; auto u = unitv(s); detector::CartesianAxis1D ax(u, vec(s, 2)); double sg = steep * uni(s, 0.01, 0.3); return std::make_shared<detector::CartesianAxisExponentialDensityDistribution>(ax, detector::ExponentialDistribution1D(sg, uni(s, 0.5, 3), uni(s, -1, 1))); }
  }
}
inline const int* nuclei(int& n) { static const int c[] = {1000010010, 1000060120, 1000080160, 1000140280, 1000180400, 1000260560, 1000822080}; n = 7; return c; }
inline void materials(S& s, detector::MaterialModel& m, int n) {
  int k; const int* c = nuclei(k); for(int i = 0; i < n; ++i) { std::map<int, double> f; int q = 1 + (int)s.below(3); while((int)f.size() < q) f[c[s.below(k)]] = uni(s, 0.1, 1); double t = 0; for(auto& x : f) t += x.second; for(auto& x : f) x.second /= t; char b[32]; snprintf(b, sizeof b, "MAT%d", i); m.AddMaterial(b, f); } }
inline std::shared_ptr<geometry::Geometry> shape(S& s, double size, std::string* name = nullptr, int depth = 0, int kind = -1);
inline std::shared_ptr<geometry::Geometry> solid(S& s, double r) { // simple convex volume that contains the origin
  geometry::Placement p(math::Vector3D(0, 0, 0), quat(s)); switch(s.below(3)) { case 0: return geometry::Sphere(p, r, 0).create(); case 1: return geometry::Box(p, 2 * r, 2 * r, 2 * r).create(); default: return geometry::Cylinder(p, r, 0, 2 * r).create(); } }
inline std::shared_ptr<detector::DetectorModel> detmodel(S& s, int maxsec = 4) {
  auto d = std::make_shared<detector::DetectorModel>(); detector::MaterialModel m = d->GetMaterials(); int nm = 2 + (int)s.below(2); materials(s, m, nm); d->SetMaterials(m); d->SetPath("p");
  int n = 1 + (int)s.below(maxsec); double r = 200; std::vector<detector::DetectorSector> secs;
  for(int i = 0; i < n; ++i) { detector::DetectorSector q; char b[32]; snprintf(b, sizeof b, "sec%d", i); q.name = b; snprintf(b, sizeof b, "MAT%d", (int)s.below(nm)); q.material_id = m.GetMaterialId(b); q.level = i; q.geo = i == 0 || coin(s, 0.6) ? solid(s, r) : shape(s, r); q.density = i == 0 || coin(s, 0.6) ? std::make_shared<detector::ConstantDensityDistribution>(uni(s, 0.5, 10)) : density(s, nullptr, 0.05); /* no star in a detector of a hundred metres */ d->AddSector(q); r *= uni(s, 0.3, 0.7); }
  if(coin(s)) d->SetDetectorOrigin(detector::GeometryPosition(vec(s, 20))); if(coin(s)) d->SetDetectorRotation(quat(s));
  return d;
}
inline std::shared_ptr<interactions::InteractionCollection> nucoll() { return std::make_shared<interactions::InteractionCollection>(PT::NuMu, std::vector<std::shared_ptr<interactions::CrossSection>>{std::make_shared<interactions::DummyCrossSection>()}); }
inline std::shared_ptr<interactions::InteractionCollection> hnlcoll(double m, double d) { return std::make_shared<interactions::InteractionCollection>(PT::N4, std::vector<std::shared_ptr<interactions::Decay>>{std::make_shared<interactions::HNLDipoleDecay>(m, std::vector<double>{0, d, 0}, interactions::HNLDipoleDecay::ChiralNature::Majorana)}); }
inline World world(S& s) { World w; w.det = detmodel(s); w.nu = nucoll(); w.hnl = hnlcoll(0.1, mag(s, 1e-8, 1e-6)); return w; }

// ---- answers of each family -------------------------------------------------------
inline void put(Out& o, dataclasses::InteractionRecord const& r);
inline void prefill(S& s, dataclasses::PrimaryDistributionRecord& rec, bool vertex) {
  rec.SetMass(rec.GetType() == PT::N4 ? 0.1 : 0.0); rec.SetEnergy(uni(s, 1, 100)); auto u = unitv(s); rec.SetDirection({u.GetX(), u.GetY(), u.GetZ()}); rec.SetHelicity(coin(s) ? -0.5 : 0.5);
  if(vertex) { auto p = vec(s, 5), q = vec(s, 5); rec.SetInitialPosition({p.GetX(), p.GetY(), p.GetZ()}); rec.SetInteractionVertex({q.GetX(), q.GetY(), q.GetZ()}); }
}
inline Ans answers(distributions::WeightableDistribution const& d, World const& w, uint64_t seed, int samples = 4) {
  Out o; S s(seed); auto rnd = std::make_shared<utilities::SIREN_random>(s.next() | 1); o.str(d.Name()); for(auto& v : d.DensityVariables()) o.str(v);
  if(auto n = dynamic_cast<distributions::PhysicallyNormalizedDistribution const*>(&d)) { o.num(n->IsNormalizationSet()); o.num(n->GetNormalization()); }
  auto prim = dynamic_cast<distributions::PrimaryInjectionDistribution const*>(&d); auto sec = dynamic_cast<distributions::SecondaryInjectionDistribution const*>(&d); auto vtx = dynamic_cast<distributions::VertexPositionDistribution const*>(&d);
  bool hnl = dynamic_cast<distributions::DecayRangePositionDistribution const*>(&d); auto in = hnl ? w.hnl : w.nu; PT type = hnl ? PT::N4 : PT::NuMu;
  for(int i = 0; i < samples; ++i) o.call([&] {
    dataclasses::InteractionRecord r;
    if(prim) { dataclasses::PrimaryDistributionRecord rec(type); prefill(s, rec, false); prim->Sample(rnd, w.det, in, rec); if(!vtx && !dynamic_cast<distributions::PrimaryExternalDistribution const*>(&d)) { auto p = vec(s, 5), q = vec(s, 5); rec.SetInitialPosition({p.GetX(), p.GetY(), p.GetZ()}); rec.SetInteractionVertex({q.GetX(), q.GetY(), q.GetZ()}); }
      r.signature.primary_type = type; r.signature.target_type = PT::Nucleon; rec.FinalizeAvailable(r); }
    else { // a parent with one secondary
      dataclasses::InteractionRecord par; par.signature.primary_type = PT::NuMu; par.signature.target_type = PT::Nucleon; par.signature.secondary_types = {type}; auto q = vec(s, 5); par.interaction_vertex = {q.GetX(), q.GetY(), q.GetZ()}; auto u = unitv(s); double e = uni(s, 1, 50); par.secondary_masses = {0}; par.secondary_momenta = {{e, e * u.GetX(), e * u.GetY(), e * u.GetZ()}}; par.secondary_helicities = {0.5}; par.secondary_times = {uni(s, 0, 10)}; par.secondary_ids = {dataclasses::ParticleID(1, 1)};
      dataclasses::SecondaryDistributionRecord rec(par, 0); if(sec) sec->Sample(rnd, w.det, in, rec); r = rec.record; r.signature.target_type = PT::Nucleon; if(sec) rec.Finalize(r); }
    put(o, r); o.num(d.GenerationProbability(w.det, in, r)); dataclasses::InteractionRecord r2 = r; r2.primary_momentum[0] *= 1.1; o.num(d.GenerationProbability(w.det, in, r2));
    if(vtx) { auto b = vtx->InjectionBounds(w.det, in, r); o.vec(std::get<0>(b)); o.vec(std::get<1>(b)); } });
  o.num((double)rnd->Uniform());
  if(auto t = dynamic_cast<distributions::TabulatedFluxDistribution const*>(&d)) { o.all(t->GetCDF()); o.all(t->GetEnergyNodes()); o.all(t->GetCDFEnergyNodes()); o.num(t->GetIntegral()); for(double e : {0.5, 1.0, 3.0, 20.0}) { o.num(t->SamplePDF(e)); o.num(t->SampleUnnormedPDF(e)); } }
  if(auto t = dynamic_cast<distributions::Tabulated2DFluxDistribution const*>(&d)) { o.all(t->GetEnergyNodes()); o.all(t->GetCosZenithNodes()); o.num(t->GetIntegral()); for(double e : {0.5, 1.0, 3.0, 20.0}) { o.num(t->SamplePDF(e, 0.1)); o.num(t->SampleUnnormedPDF(e, -0.3)); } }
  return o.a;
}
inline Ans answers(geometry::Geometry const& g, World const&, uint64_t seed) {
  Out o; S s(seed); o.str(g.GetName()); o.vec(g.GetPlacement().GetPosition()); { auto q = g.GetPlacement().GetQuaternion(); o.num(q.GetX()); o.num(q.GetY()); o.num(q.GetZ()); o.num(q.GetW()); } o.num(g.GetPlacement().IsIdentity());
  auto put = [&](std::vector<geometry::Geometry::Intersection> const& v) { o.num((double)v.size()); for(auto& i : v) { o.num(i.distance); o.num(i.entering); o.vec(i.position); } };
  for(int i = 0; i < 6; ++i) { auto u = unitv(s); math::Vector3D p = g.GetPlacement().GetPosition() + vec(s, i < 3 ? 3 : 30), t = g.GetPlacement().GetPosition() + vec(s, 2) - p; if(i % 2) { t.normalize(); u = t; }
    o.call([&] { put(g.Intersections(p, u)); }); o.call([&] { o.num(g.IsInside(p)); o.num(g.IsInside(p, u)); o.num(g.DistanceToClosestApproach(p, u)); }); o.call([&] { auto l = g.ToLocal(p, u); put(g.Intersections(l.first, l.second)); }); }
  o.call([&] { auto b = g.GetBoundingBox(); o.vec(b.min_corner); o.vec(b.max_corner); }); o.call([&] { auto b = g.GetWorldBoundingBox(); o.vec(b.min_corner); o.vec(b.max_corner); });
  return o.a;
}
inline Ans answers(detector::DensityDistribution const& d, World const&, uint64_t seed) {
  Out o; S s(seed); for(int i = 0; i < 4; ++i) { auto x = vec(s, 5), u = unitv(s); double L = uni(s, 0.1, 5); o.call([&] { o.num(d.Evaluate(x)); o.num(d.Derivative(x, u)); }); o.call([&] { o.num(d.AntiDerivative(x, u)); }); o.call([&] { double I = d.Integral(x, u, L); o.num(I); o.num(d.Integral(x, x + u * L)); o.num(d.InverseIntegral(x, u, I * 0.5, L * 2)); o.num(d.InverseIntegral(x, u, 0.3, I * 0.5, L * 2)); }); }
  return o.a;
}
inline Ans answers(detector::MaterialModel const& m, World const&, uint64_t seed) {
  Out o; for(int k = 0; m.HasMaterial(k); ++k) { std::string n = m.GetMaterialName(k); o.str(n); o.num(m.GetMaterialId(n)); o.num(m.HasMaterial(n)); o.num(m.GetMaterialRadiationLength(k)); auto t = m.GetMaterialTargets(k); o.types(t); o.types(m.GetMaterialConstituents(k)); o.all(m.GetTargetMassFraction(k, t)); o.all(m.GetTargetParticleFraction(k, t)); o.call([&] { o.all(m.GetTargetRadiationFraction(k, t)); }); for(auto c : t) { o.num(m.GetTargetMassFraction(k, c)); o.num(m.GetTargetParticleFraction(k, c)); } }
  return o.a;
}
inline void put(Out& o, std::vector<dataclasses::InteractionSignature> v) { std::sort(v.begin(), v.end()); o.num((double)v.size()); for(auto& x : v) { o.num((double)(int)x.primary_type); o.num((double)(int)x.target_type); o.types(x.secondary_types); } }
inline dataclasses::InteractionRecord initial(S& s, dataclasses::InteractionSignature const& sig, double mass, double tmass, double emin, double emax) {
  dataclasses::InteractionRecord r; r.signature = sig; r.primary_mass = mass; r.target_mass = tmass; double e = mass + mag(s, emin, emax), p = std::sqrt(std::max(0.0, e * e - mass * mass)); auto u = unitv(s); r.primary_momentum = {e, p * u.GetX(), p * u.GetY(), p * u.GetZ()}; r.primary_helicity = coin(s) ? -0.5 : 0.5; r.interaction_vertex = {uni(s, -1, 1), 0, 2}; r.interaction_time = uni(s, 0, 5); r.primary_id = dataclasses::ParticleID(1, 2);
  return r;
}
inline double tmass(PT t) { int c = (int)t; if(c == 11) return 0.000510998950; if(c == 1000010010 || c == 2212) return 0.938272088; if(c > 1000000000) return 0.931494 * ((c / 10) % 1000); return 0.939; }
inline Ans answers(interactions::CrossSection const& x, World const&, uint64_t seed, int samples = 3) {
  Out o; S s(seed); auto rnd = std::make_shared<utilities::SIREN_random>(s.next() | 1); auto tg = x.GetPossibleTargets(); std::sort(tg.begin(), tg.end()); o.types(tg); auto pr = x.GetPossiblePrimaries(); std::sort(pr.begin(), pr.end()); o.types(pr); auto sg = x.GetPossibleSignatures(); std::sort(sg.begin(), sg.end()); put(o, sg); for(auto& v : x.DensityVariables()) o.str(v);
  for(int i = 0; i < samples && !sg.empty(); ++i) { auto sig = sg[s.below((uint32_t)sg.size())]; auto r = initial(s, sig, 0, tmass(sig.target_type), 0.5, 100); o.call([&] { put(o, x.GetPossibleSignaturesFromParents(sig.primary_type, sig.target_type)); auto t2 = x.GetPossibleTargetsFromPrimary(sig.primary_type); std::sort(t2.begin(), t2.end()); o.types(t2); });
    o.call([&] { o.num(x.InteractionThreshold(r)); }); o.call([&] { o.num(x.TotalCrossSection(r)); }); o.call([&] { o.num(x.TotalCrossSectionAllFinalStates(r)); });
    o.call([&] { dataclasses::CrossSectionDistributionRecord c(r); c.SetTargetMass(r.target_mass); x.SampleFinalState(c, rnd); c.Finalize(r); put(o, r); o.num(x.DifferentialCrossSection(r)); o.num(x.FinalStateProbability(r)); }); }
  o.num(rnd->Uniform()); return o.a;
}
inline double pmass(interactions::Decay const& d, PT t) {
  if(auto h = dynamic_cast<interactions::HNLDecay const*>(&d)) return h->GetHNLMass(); if(auto h = dynamic_cast<interactions::HNLDipoleDecay const*>(&d)) return h->GetHNLMass();
  switch((int)t) { case 24: case -24: return utilities::Constants::wMass; case 23: return utilities::Constants::zMass; case 421: case -421: return utilities::Constants::D0Mass; case 411: case -411: return utilities::Constants::DPlusMass; case 431: case -431: return utilities::Constants::DsPlusMass; default: return 1.0; } }
inline Ans answers(interactions::Decay const& x, World const&, uint64_t seed, int samples = 3) {
  Out o; S s(seed); auto rnd = std::make_shared<utilities::SIREN_random>(s.next() | 1); auto sg = x.GetPossibleSignatures(); put(o, sg); std::sort(sg.begin(), sg.end()); for(auto& v : x.DensityVariables()) o.str(v);
  for(int i = 0; i < samples && !sg.empty(); ++i) { auto sig = sg[s.below((uint32_t)sg.size())]; auto r = initial(s, sig, pmass(x, sig.primary_type), 0, 0.1, 100); o.call([&] { put(o, x.GetPossibleSignaturesFromParent(sig.primary_type)); });
    o.call([&] { o.num(x.TotalDecayWidth(r)); }); o.call([&] { o.num(x.TotalDecayWidth(sig.primary_type)); }); o.call([&] { o.num(x.TotalDecayWidthAllFinalStates(r)); }); o.call([&] { o.num(x.TotalDecayLength(r)); o.num(x.TotalDecayLengthAllFinalStates(r)); });
    o.call([&] { dataclasses::CrossSectionDistributionRecord c(r); x.SampleFinalState(c, rnd); c.Finalize(r); put(o, r); o.num(x.DifferentialDecayWidth(r)); o.num(x.FinalStateProbability(r)); }); }
  o.num(rnd->Uniform()); return o.a;
}
inline Ans answers(interactions::InteractionCollection const& c, World const& w, uint64_t seed) {
  Out o; S s(seed); o.num((double)(int)c.GetPrimaryType()); o.num(c.HasCrossSections()); o.num(c.HasDecays()); for(auto t : c.TargetTypes()) o.num((double)(int)t);
  for(auto& x : c.GetCrossSections()) for(double v : answers(*x, w, seed, 1)) o.num(v); for(auto& x : c.GetDecays()) for(double v : answers(*x, w, seed, 1)) o.num(v);
  for(auto& p : c.GetCrossSectionsByTarget()) { o.num((double)(int)p.first); o.num((double)p.second.size()); o.num((double)c.GetCrossSectionsForTarget(p.first).size()); }
  o.call([&] { dataclasses::InteractionSignature sig; sig.primary_type = c.GetPrimaryType(); auto r = initial(s, sig, c.HasDecays() ? pmass(*c.GetDecays()[0], sig.primary_type) : 0, 0, 1, 50); o.num(c.MatchesPrimary(r)); o.num(c.TotalDecayWidthAllFinalStates(r)); o.num(c.TotalDecayLengthAllFinalStates(r)); for(auto& p : c.TotalCrossSectionByTargetAllFinalStates(r)) { o.num((double)(int)p.first); o.num(p.second); } });
  return o.a;
}
inline Ans answers(detector::DetectorModel const& d, World const& w, uint64_t seed, int n = 4) {
  Out o; S s(seed); o.str(d.GetPath()); o.vec(d.GetDetectorOrigin().get()); auto q = d.GetDetectorRotation(); o.num(q.GetX()); o.num(q.GetY()); o.num(q.GetZ()); o.num(q.GetW()); for(double v : answers(d.GetMaterials(), w, seed)) o.num(v);
  o.num((double)d.GetSectors().size()); for(auto& x : d.GetSectors()) { o.str(x.name); o.num(x.level); o.num(x.material_id); o.call([&] { o.str(d.GetSector(x.level).name); o.num(d.GetSector(x.name).level); }); }
  for(int i = 0; i < n; ++i) { math::Vector3D p = vec(s, i % 2 ? 150 : 15), p1 = vec(s, 150), u = unitv(s); detector::DetectorPosition a(p), b(p1); math::Vector3D du = p1 - p; du.normalize(); detector::DetectorDirection dir(du);
    o.call([&] { auto l = d.GetIntersections(a, dir); o.num((double)l.intersections.size()); for(auto& x : l.intersections) { o.num(x.distance); o.num(x.hierarchy); o.num(x.entering); o.num(x.matID); } auto ob = d.GetOuterBounds(l); o.num((double)ob.intersections.size()); o.num(d.GetColumnDepthInCGS(l, a, b)); o.num(d.GetMassDensity(l, a)); o.str(d.GetContainingSector(l, a).name); });
    o.call([&] { o.str(d.GetContainingSector(a).name); o.num(d.GetMassDensity(a)); }); o.call([&] { o.num(d.GetColumnDepthInCGS(a, b)); }); o.call([&] { for(auto t : d.GetAvailableTargets(a)) { o.num((double)(int)t); o.num(d.GetParticleDensity(a, t)); } });
    o.call([&] { o.num(d.DistanceForColumnDepthFromPoint(a, dir, 100 * d.GetColumnDepthInCGS(a, b) * 0.005)); }); o.call([&] { std::vector<PT> t{PT::Nucleon, (PT)1000080160}; std::vector<double> xs{1e-30, 1e-31}; o.num(d.GetInteractionDepthInCGS(a, b, t, xs, 1e3)); o.num(d.GetInteractionDensity(a, t, xs, 1e3)); }); }
  return o.a;
}
inline Ans answers(injection::Process const& p, World const& w, uint64_t seed) {
  Out o; o.num((double)(int)p.GetPrimaryType()); o.num(p.GetInteractions() != nullptr); if(p.GetInteractions()) for(double v : answers(*p.GetInteractions(), w, seed)) o.num(v);
  if(auto x = dynamic_cast<injection::PhysicalProcess const*>(&p)) { o.num((double)x->GetPhysicalDistributions().size()); for(auto& d : x->GetPhysicalDistributions()) for(double v : answers(*d, w, seed, 2)) o.num(v); }
  if(auto x = dynamic_cast<injection::PrimaryInjectionProcess const*>(&p)) { o.num((double)x->GetPrimaryInjectionDistributions().size()); for(auto& d : x->GetPrimaryInjectionDistributions()) for(double v : answers(*d, w, seed, 2)) o.num(v); }
  if(auto x = dynamic_cast<injection::SecondaryInjectionProcess const*>(&p)) { o.num((double)x->GetSecondaryInjectionDistributions().size()); for(auto& d : x->GetSecondaryInjectionDistributions()) for(double v : answers(*d, w, seed, 2)) o.num(v); }
  return o.a;
}
inline Ans answers(distributions::DepthFunction const& f, World const&, uint64_t seed) { Out o; S s(seed); for(int i = 0; i < 6; ++i) { double e = mag(s, 0.1, 1e8); for(auto t : {PT::NuMu, PT::NuTau, PT::NuTauBar, PT::NuE}) o.num(f(t, e)); } return o.a; }
inline Ans answers(distributions::RangeFunction const& f, World const&, uint64_t seed) { Out o; S s(seed); for(int i = 0; i < 6; ++i) { double e = mag(s, 0.5, 1e6); for(auto t : {PT::NuMu, PT::N4}) o.num(f(t, e)); } return o.a; }
inline Ans answers(utilities::Interpolator1D<double> const& t, World const&, uint64_t seed) { Out o; S s(seed); o.num(t.MinX()); o.num(t.MaxX()); o.num(t.IsLog()); for(int i = 0; i < 8; ++i) { double x = uni(s, t.MinX(), t.MaxX()); o.num(t(x)); } o.num(t(t.MinX())); o.num(t(t.MaxX())); o.num(t(t.MaxX() * 1.01)); return o.a; }
inline Ans answers(utilities::Interpolator2D<double> const& t, World const&, uint64_t seed) { Out o; S s(seed); o.num(t.MinX()); o.num(t.MaxX()); o.num(t.MinY()); o.num(t.MaxY()); o.num(t.IsLogX()); o.num(t.IsLogY()); for(int i = 0; i < 8; ++i) { double x = uni(s, t.MinX(), t.MaxX()), y = uni(s, t.MinY(), t.MaxY()); o.num(t(x, y)); } o.num(t(t.MinX(), t.MinY())); o.num(t(t.MaxX(), t.MaxY())); return o.a; }
inline Ans answers(math::Polynom const& p, World const&, uint64_t seed) { Out o; S s(seed); for(int i = 0; i < 5; ++i) { double x = uni(s, -3, 3); o.num(p.evaluate(x)); } o.all(p.GetCoefficient()); o.num(p.GetDerivative().evaluate(0.7)); o.num(p.GetAntiderivative(0.5).evaluate(0.7)); return o.a; }
inline Ans answers(math::Quaternion const& p, World const&, uint64_t seed) { Out o; S s(seed); o.num(p.GetX()); o.num(p.GetY()); o.num(p.GetZ()); o.num(p.GetW()); o.vec(p.rotate(vec(s, 3), false)); return o.a; }

// ---- builders ------------------------------------------------------------------------
inline std::shared_ptr<geometry::Geometry> shape(S& s, double size, std::string* name, int depth, int kind) {
  auto p = place(s, size * 0.3); double a = size * uni(s, 0.2, 0.5); auto sp = [&] { return uni(s, 0, 6); }; auto dp = [&] { return uni(s, 0.5, 6); }; bool cut = coin(s, 0.4); std::shared_ptr<geometry::Geometry> g; int k = kind >= 0 ? kind : (int)s.below(depth > 1 ? 16 : 17);
  switch(k) {
    case 0: { double x = a, y = a * uni(s, 0.5, 2), z = a * uni(s, 0.5, 2); g = geometry::Box(p, x, y, z).create(); break; }
    case 1: { double in = coin(s) ? 0 : a * 0.4; if(cut) { double q = sp(), r = dp(), t = uni(s, 0, 1), u = uni(s, 0.5, 2); g = geometry::Sphere(p, a, in, q, r, t, u).create(); } else g = geometry::Sphere(p, a, in).create(); break; }
    case 2: { double in = coin(s) ? 0 : a * 0.4, z = a * uni(s, 0.5, 2); if(cut) { double q = sp(), r = dp(); g = geometry::Cylinder(p, a, in, z, q, r).create(); } else g = geometry::Cylinder(p, a, in, z).create(); break; }
    case 3: { double i1 = coin(s) ? 0 : a * 0.3, i2 = coin(s) ? 0 : a * 0.2, r2 = a * uni(s, 0.3, 1), z = a * uni(s, 0.5, 2); if(cut) { double q = sp(), r = dp(); g = geometry::Cone(p, i1, a, i2, r2, z, q, r).create(); } else g = geometry::Cone(p, i1, a, i2, r2, z).create(); break; }
    case 4: { double b = a * uni(s, 0.4, 1), c = a * uni(s, 0.4, 1), d = a * uni(s, 0.4, 1), e = a * uni(s, 0.4, 1); g = geometry::Trd(p, a, b, c, d, e).create(); break; }
    case 5: { double th = uni(s, 0, 0.3), ph = uni(s, 0, 6), al = uni(s, -0.2, 0.2), b = a * uni(s, 0.5, 1); g = geometry::Trap(p, a, th, ph, b, b, b, al, b, b, b, al).create(); break; }
    case 6: { double b = a * uni(s, 0.5, 1), c = a * uni(s, 0.5, 1), al = uni(s, -0.3, 0.3), th = uni(s, 0, 0.3), ph = uni(s, 0, 6); g = geometry::Para(p, a, b, c, al, th, ph).create(); break; }
    case 7: { double r = a * uni(s, 0.1, 0.4), in = coin(s) ? 0 : r * 0.5; if(cut) { double q = sp(), t = dp(); g = geometry::Torus(p, a, r, in, q, t).create(); } else g = geometry::Torus(p, a, r, in).create(); break; }
    case 8: { std::vector<double> z{-a, uni(s, -0.5, 0.5) * a, a}, r0, r1; for(int i = 0; i < 3; ++i) { r1.push_back(a * uni(s, 0.4, 1)); r0.push_back(coin(s) ? 0 : a * 0.2); } if(cut) { double q = sp(), t = dp(); g = geometry::Polycone(p, z, r0, r1, q, t).create(); } else g = geometry::Polycone(p, z, r0, r1).create(); break; }
    case 9: { std::vector<double> z{-a, uni(s, -0.5, 0.5) * a, a}, r0, r1; for(int i = 0; i < 3; ++i) { r1.push_back(a * uni(s, 0.4, 1)); r0.push_back(coin(s) ? 0 : a * 0.2); } int n = 3 + (int)s.below(5); double q = sp(); if(cut) { double t = dp(); g = geometry::Polyhedra(p, n, q, z, r0, r1, t).create(); } else g = geometry::Polyhedra(p, n, q, z, r0, r1).create(); break; }
    case 10: { std::vector<double> r{0.3 * a, a * uni(s, 0.5, 1), a * uni(s, 0.5, 1), 0.3 * a}, z{-a, -a, a, a}; if(cut) { double q = sp(), t = dp(); g = geometry::GenericPolycone(p, r, z, q, t).create(); } else g = geometry::GenericPolycone(p, r, z).create(); break; }
    case 11: { math::Vector3D lo(uni(s, -0.3, 0.3), 0, -1), hi(0, uni(s, -0.3, 0.3), 1); lo.normalize(); hi.normalize(); double in = coin(s) ? 0 : a * 0.3, z = a * 1.5; if(cut) { double q = sp(), t = dp(); g = geometry::CutTube(p, in, a, z, lo, hi, q, t).create(); } else g = geometry::CutTube(p, in, a, z, lo, hi).create(); break; }
    case 12: { double b = a * uni(s, 0.3, 1), c = a * uni(s, 0.3, 1); g = geometry::EllipticalTube(p, a, b, c).create(); break; }
    case 13: { double b = a * uni(s, 0.3, 1), c = a * uni(s, 0.3, 1); if(cut) g = geometry::Ellipsoid(p, a, b, c, -0.5 * c, 0.7 * c).create(); else g = geometry::Ellipsoid(p, a, b, c).create(); break; }
    case 14: { std::vector<std::vector<double>> poly{{-a, -a}, {a, -a * uni(s, 0.5, 1)}, {a * uni(s, 0.5, 1), a}, {-a, a}}; double o1[2] = {0, 0}, o2[2] = {a * 0.1, 0}; double sc = uni(s, 0.5, 1); std::vector<geometry::ExtrPoly::ZSection> z{geometry::ExtrPoly::ZSection(-a, o1, 1), geometry::ExtrPoly::ZSection(a, o2, sc)}; if(coin(s)) { o2[0] = 0; z[1] = geometry::ExtrPoly::ZSection(a, o2, 1); } g = geometry::ExtrPoly(p, poly, z).create(); break; }
    case 15: { math::Vector3D v[4] = {math::Vector3D(a, a, a), math::Vector3D(-a, -a, a), math::Vector3D(-a, a, -a), math::Vector3D(a, -a, -a * uni(s, 0.5, 1))}; std::vector<std::array<math::Vector3D, 3>> t{{v[0], v[2], v[1]}, {v[0], v[1], v[3]}, {v[0], v[3], v[2]}, {v[1], v[2], v[3]}}; g = geometry::TriangularMesh(p, t).create(); break; }
    default: { auto l = shape(s, size, nullptr, depth + 1), r = shape(s, size, nullptr, depth + 1); auto op = (geometry::BooleanOperation)s.below(3); g = geometry::BooleanGeometry(p, op, l, r).create(); }
  }
  if(name) *name = g->GetName();
  return g;
}
inline std::shared_ptr<distributions::DepthFunction> depthfn(S& s) { auto f = std::make_shared<distributions::LeptonDepthFunction>(); if(coin(s)) { double a = mag(s, 1e-4, 1e-2), b = mag(s, 1e-7, 1e-5); f->SetMuParams(a, b); } if(coin(s)) { double a = mag(s, 1, 50), b = mag(s, 1e-8, 1e-6); f->SetTauParams(a, b); } if(coin(s)) f->SetScale(uni(s, 0.5, 2)); if(coin(s)) f->SetMaxDepth(mag(s, 1e3, 1e8)); return f; }
inline std::shared_ptr<distributions::DecayRangeFunction> rangefn(S& s) { double m = uni(s, 0.05, 1), w = mag(s, 1e-18, 1e-12), k = uni(s, 0.5, 5), x = mag(s, 1, 1e4); return std::make_shared<distributions::DecayRangeFunction>(m, w, k, x); }
inline std::shared_ptr<distributions::PrimaryInjectionDistribution> energydist_(S& s, int kind = -1) {
  switch(kind >= 0 ? kind : (int)s.below(5)) {
    case 0: { double g = coin(s, 0.3) ? 1 : uni(s, -1, 3), a = mag(s, 0.1, 10), b = a * mag(s, 1.5, 1e4); auto d = std::make_shared<distributions::PowerLaw>(g, a, b); if(coin(s, 0.4)) d->SetNormalizationAtEnergy(mag(s, 0.1, 10), mag(s, 0.1, 10)); return d; }
    case 1: return std::make_shared<distributions::Monoenergetic>(mag(s, 0.1, 100));
    case 2: { std::vector<double> e, f; double x = mag(s, 0.5, 2); int n = 2 + (int)s.below(8); for(int i = 0; i < n; ++i) { e.push_back(x); f.push_back(mag(s, 0.1, 10)); x += mag(s, 0.2, 5); } bool ph = coin(s), ro = coin(s, 0.15); if(coin(s, 0.4)) { double lo = e[0] + 0.1 * (e.back() - e[0]), hi = e[0] + uni(s, 0.5, 1) * (e.back() - e[0]); return std::make_shared<distributions::TabulatedFluxDistribution>(lo, hi, e, f, ph, ro); } auto d = std::make_shared<distributions::TabulatedFluxDistribution>(e, f, ph, ro); if(coin(s, 0.3)) for(int k = 1 + (int)s.below(2); k > 0; --k) { double x0 = e[0], w = e.back() - e[0], a = x0 + uni(s, 0.01, 0.4) * w, b = x0 + uni(s, 0.6, 0.99) * w; d->SetEnergyBounds(a, b); } return d; }
    case 3: { double a = mag(s, 0.1, 1), b = a + mag(s, 5, 50), mu = uni(s, 1, 4), sg = uni(s, 0.3, 2), A = mag(s, 0.1, 5), l = uni(s, 1, 5), B = mag(s, 0.01, 1); return std::make_shared<distributions::ModifiedMoyalPlusExponentialEnergyDistribution>(a, b, mu, sg, A, l, B, coin(s)); }
    default: return std::make_shared<distributions::PiDARNuEDistribution>();
  }
}
inline std::shared_ptr<distributions::PrimaryInjectionDistribution> energydist(S& s, int kind = -1) { auto d = energydist_(s, kind); if(auto n = std::dynamic_pointer_cast<distributions::PhysicallyNormalizedDistribution>(d)) if(coin(s, 0.2)) n->SetNormalization(coin(s, 0.4) ? 1 : mag(s, 0.1, 10)); return d; }
inline std::shared_ptr<distributions::PrimaryInjectionDistribution> directiondist(S& s, int kind = -1) { switch(kind >= 0 ? kind : (int)s.below(3)) { case 0: { auto u = unitv(s); return std::make_shared<distributions::Cone>(u, uni(s, 0, 3.1)); } case 1: return std::make_shared<distributions::FixedDirection>(unitv(s)); default: return std::make_shared<distributions::IsotropicDirection>(); } }
inline std::shared_ptr<distributions::PrimaryInjectionDistribution> vertexdist(S& s, int kind = -1) {
  switch(kind >= 0 ? kind : (int)s.below(9)) {
    case 0: { auto p = place(s, 20); double r = uni(s, 1, 20), in = coin(s) ? 0 : r * 0.4; return std::make_shared<distributions::CylinderVolumePositionDistribution>(geometry::Cylinder(p, r, in, uni(s, 1, 40))); }
    case 1: { auto p = place(s, 20); double r = uni(s, 1, 20), in = coin(s) ? 0 : r * 0.4; return std::make_shared<distributions::SphereVolumePositionDistribution>(geometry::Sphere(p, r, in)); }
    case 2: { auto o = vec(s, 20); return std::make_shared<distributions::PointSourcePositionDistribution>(o, mag(s, 1, 100)); }
    case 3: return std::make_shared<distributions::PrimaryPhysicalVertexDistribution>();
    case 4: { int k = (int)s.below(3); double l = mag(s, 1, 100); std::shared_ptr<geometry::Geometry> g = solid(s, 30); if(k == 0) return std::make_shared<distributions::PrimaryBoundedVertexDistribution>(l); if(k == 1) return std::make_shared<distributions::PrimaryBoundedVertexDistribution>(g); return std::make_shared<distributions::PrimaryBoundedVertexDistribution>(g, l); }
    case 5: { double r = uni(s, 1, 20), e = uni(s, 1, 20); auto f = rangefn(s); std::set<PT> t{PT::Nucleon}; if(coin(s)) t.insert((PT)1000080160); return std::make_shared<distributions::RangePositionDistribution>(r, e, f, t); }
    case 6: { double r = uni(s, 1, 20), e = uni(s, 1, 20); return std::make_shared<distributions::DecayRangePositionDistribution>(r, e, rangefn(s)); }
    case 7: { double r = uni(s, 1, 20), e = uni(s, 1, 20); return std::make_shared<distributions::ColumnDepthPositionDistribution>(r, e, depthfn(s)); }
    default: { auto p = place(s, 5); geometry::Cylinder c(p, uni(s, 1, 10), 0, uni(s, 1, 10)); std::shared_ptr<geometry::Geometry> g = solid(s, 30); int k = (int)s.below(3); double l = mag(s, 1, 100); if(k == 0) return std::make_shared<distributions::FixedTargetPositionDistribution>(c, g); if(k == 1) return std::make_shared<distributions::FixedTargetPositionDistribution>(c, g, l); return std::make_shared<distributions::FixedTargetPositionDistribution>(c, l); }
  }
}
inline std::shared_ptr<distributions::PrimaryInjectionDistribution> otherdist(S& s, std::string const& scratch, int kind = -1) {
  switch(kind >= 0 ? kind : (int)s.below(5)) {
    case 0: return std::make_shared<distributions::PrimaryMass>(mag(s, 1e-3, 10));
    case 1: return std::make_shared<distributions::PrimaryNeutrinoHelicityDistribution>();
    case 2: { std::vector<double> e, z, f; double x0 = mag(s, 0.5, 5), dx = mag(s, 0.5, 5), c = uni(s, 1, 2); for(int i = 0; i < 2; ++i) for(int j = 0; j < 2; ++j) { e.push_back(x0 + dx * i); z.push_back(-1 + 2.0 * j); f.push_back(c); } bool ph = coin(s); if(coin(s, 0.3)) return std::make_shared<distributions::Tabulated2DFluxDistribution>(x0 + 0.1 * dx, x0 + 0.9 * dx, e, z, f, ph); return std::make_shared<distributions::Tabulated2DFluxDistribution>(e, z, f, ph); }
    case 3: { std::string t = "E,px,py,pz\n"; int n = 1 + (int)s.below(4); for(int i = 0; i < n; ++i) { char b[128]; double E = uni(s, 1, 20); auto u = unitv(s); snprintf(b, sizeof b, "%.17g,%.17g,%.17g,%.17g\n", E, E * u.GetX(), E * u.GetY(), E * u.GetZ()); t += b; } std::string f = scratch + "/ext.csv"; sim::spit(f, t); return std::make_shared<distributions::PrimaryExternalDistribution>(f, coin(s) ? 0.5 : 0.0); }
    default: { auto p = place(s, 10); double r = uni(s, 1, 10), in = coin(s) ? 0 : r * 0.3; return std::make_shared<distributions::FixedTargetAreaDistribution>(geometry::Cylinder(p, r, in, uni(s, 1, 10))); }
  }
}
inline std::shared_ptr<distributions::SecondaryInjectionDistribution> secondarydist(S& s) { std::shared_ptr<geometry::Geometry> g = solid(s, 50); double l = mag(s, 1, 100); switch(s.below(4)) { case 0: return std::make_shared<distributions::SecondaryPhysicalVertexDistribution>(); case 1: return std::make_shared<distributions::SecondaryBoundedVertexDistribution>(l); case 2: return std::make_shared<distributions::SecondaryBoundedVertexDistribution>(g); default: return std::make_shared<distributions::SecondaryBoundedVertexDistribution>(g, l); } }
inline utilities::Interpolator1D<double> table1(S& s, double sc = 1, double lo = 0.2, double hi = 200) { utilities::TableData1D<double> t; int n = 2 + (int)s.below(6); double x = lo; for(int i = 0; i < n; ++i) { t.x.push_back(x); t.f.push_back(coin(s, 0.1) ? 0 : sc * mag(s, 0.1, 10)); x = i + 2 == n ? hi : x + (hi - x) * uni(s, 0.1, 0.5); } return utilities::Interpolator1D<double>(t); }
inline utilities::Interpolator2D<double> table2(S& s, double sc = 1, double lo = 0.2, double hi = 200) { utilities::TableData2D<double> t; int n = 2 + (int)s.below(3), m = 2 + (int)s.below(3); double x = lo; for(int i = 0; i < n; ++i) { for(int j = 0; j < m; ++j) { t.x.push_back(x); t.y.push_back((double)j / (m - 1)); t.f.push_back(sc * mag(s, 0.5, 5)); } x = i + 2 == n ? hi : x + (hi - x) * uni(s, 0.1, 0.5); } return utilities::Interpolator2D<double>(t); }
inline std::set<PT> pset(S& s, std::vector<PT> all) { std::set<PT> r; while(r.empty()) for(auto x : all) if(coin(s, 0.6)) r.insert(x); return r; }
inline std::shared_ptr<interactions::CrossSection> xsec(S& s, int kind = -1) {
  switch(kind >= 0 ? kind : (int)s.below(3)) {
    case 0: return std::make_shared<interactions::DummyCrossSection>();
    case 1: if(coin(s, 0.4)) return std::make_shared<interactions::ElasticScattering>(); return std::make_shared<interactions::ElasticScattering>(pset(s, {PT::NuE, PT::NuMu, PT::NuEBar, PT::NuMuBar}));
    default: { double m = uni(s, 0.01, 0.3), d = mag(s, 1e-8, 1e-5); auto ch = coin(s) ? interactions::HNLDipoleFromTable::Conserving : interactions::HNLDipoleFromTable::Flipping; bool z = coin(s, 0.7), g = coin(s), in = coin(s); auto x = std::make_shared<interactions::HNLDipoleFromTable>(m, d, ch, z, g, in, pset(s, {PT::NuE, PT::NuMu, PT::NuTau, PT::NuMuBar}));
      std::vector<PT> t{PT::HNucleus}; if(coin(s)) t.push_back((PT)1000180400); if(coin(s)) t.push_back((PT)1000060120); for(auto q : t) { x->AddTotalCrossSection(q, table1(s)); x->AddDifferentialCrossSection(q, table2(s)); } return x; }
  }
}
inline std::shared_ptr<interactions::Decay> decay(S& s, int kind = -1) {
  switch(kind >= 0 ? kind : (int)s.below(5)) {
    case 0: { double m = uni(s, 0.05, 1.5); std::vector<double> u{mag(s, 1e-5, 1e-2), mag(s, 1e-5, 1e-2), mag(s, 1e-5, 1e-2)}; auto n = coin(s) ? interactions::HNLDecay::ChiralNature::Dirac : interactions::HNLDecay::ChiralNature::Majorana; if(coin(s)) return std::make_shared<interactions::HNLDecay>(m, u, n); return std::make_shared<interactions::HNLDecay>(m, u, n, pset(s, {PT::N4, PT::N4Bar})); }
    case 1: { double m = uni(s, 0.05, 1.5); std::vector<double> u{mag(s, 1e-9, 1e-5), mag(s, 1e-9, 1e-5), mag(s, 1e-9, 1e-5)}; auto n = coin(s) ? interactions::HNLDipoleDecay::ChiralNature::Dirac : interactions::HNLDipoleDecay::ChiralNature::Majorana; if(coin(s)) return std::make_shared<interactions::HNLDipoleDecay>(m, u, n); return std::make_shared<interactions::HNLDipoleDecay>(m, u, n, pset(s, {PT::N4, PT::N4Bar})); }
    case 2: return std::make_shared<interactions::ElectroweakDecay>(pset(s, {PT::WPlus, PT::WMinus, PT::Z0}));
    case 3: return std::make_shared<interactions::CharmMesonDecay>();
    default: return std::make_shared<interactions::CharmMesonDecay3Body>();
  }
}
inline std::shared_ptr<interactions::InteractionCollection> collection(S& s, int cheap = 0) {
  std::vector<std::shared_ptr<interactions::CrossSection>> x; std::vector<std::shared_ptr<interactions::Decay>> d; if(coin(s)) { int n = 1 + (int)s.below(3); for(int i = 0; i < n; ++i) x.push_back(xsec(s)); if(coin(s, 0.2)) x.push_back(x[0]); return std::make_shared<interactions::InteractionCollection>(PT::NuMu, x); }
  int n = 1 + (int)s.below(2); for(int i = 0; i < n; ++i) d.push_back(decay(s, (int)s.below(2))); if(coin(s, 0.3)) x.push_back(xsec(s, 0)); return std::make_shared<interactions::InteractionCollection>(PT::N4, x, d);
}
// ---- a component with its type erased -----------------------------------------------------
struct Component { bool stateful = false; std::string family, name; std::function<Ans(World const&, uint64_t)> answers; std::function<void(std::ostream&)> save; std::function<Component(std::istream&)> load; std::function<bool(Component const&)> equal; std::shared_ptr<void> p; bool slow = false; };
template<class B> struct Eq { static bool eq(B const& a, B const& b) { return a == b; } };
// these two compare the identity of the models they refer to, not their content
template<> struct Eq<interactions::InteractionCollection> { static bool eq(interactions::InteractionCollection const&, interactions::InteractionCollection const&) { return true; } };
template<> struct Eq<injection::Process> { static bool eq(injection::Process const&, injection::Process const&) { return true; } };
template<class B> Component poly(std::string family, std::string name, std::shared_ptr<B> p) {
  Component c; c.family = family; c.name = name; c.p = p; c.answers = [p](World const& w, uint64_t s) { return comp::answers(*p, w, s); };
  c.save = [p](std::ostream& os) { cereal::BinaryOutputArchive ar(os); ar(p); };
  c.load = [family, name](std::istream& is) { std::shared_ptr<B> q; cereal::BinaryInputArchive ar(is); ar(q); if(!q) throw std::runtime_error("nothing restored"); return poly<B>(family, name, q); };
  c.equal = [p](Component const& o) { auto q = std::static_pointer_cast<B>(o.p); return Eq<B>::eq(*p, *q) && Eq<B>::eq(*q, *p); };
  return c;
}
inline Component make(S& s, std::string const& scratch, int kind = -1) {
  std::string n;
  switch(kind >= 0 ? kind : (int)s.below(18)) {
    case 0: { auto d = energydist(s); return poly<distributions::PrimaryInjectionDistribution>("distribution", d->Name(), d); }
    case 1: { auto d = directiondist(s); return poly<distributions::PrimaryInjectionDistribution>("distribution", d->Name(), d); }
    case 2: { auto d = vertexdist(s); return poly<distributions::PrimaryInjectionDistribution>("distribution", d->Name(), d); }
    case 3: { auto d = otherdist(s, scratch); auto c = poly<distributions::PrimaryInjectionDistribution>("distribution", d->Name(), d); c.stateful = c.name == "Tabulated2DFluxDistribution"; return c; }
    case 4: { auto d = secondarydist(s); return poly<distributions::SecondaryInjectionDistribution>("distribution", d->Name(), d); }
    case 5: { std::shared_ptr<distributions::WeightableDistribution> d; if(coin(s)) d = std::make_shared<distributions::NormalizationConstant>(mag(s, 1e-3, 1e3)); else d = energydist(s); return poly<distributions::WeightableDistribution>("distribution", d->Name(), d); }
    case 6: return poly<distributions::DepthFunction>("depth function", "LeptonDepthFunction", depthfn(s));
    case 7: return poly<distributions::RangeFunction>("range function", "DecayRangeFunction", rangefn(s));
    case 8: { auto d = density(s, &n); return poly<detector::DensityDistribution>("density", n, d); }
    case 9: { auto m = std::make_shared<detector::MaterialModel>(); materials(s, *m, 1 + (int)s.below(4)); return poly<detector::MaterialModel>("material table", "MaterialModel", m); }
    case 10: { int k = (int)s.below(3); auto x = xsec(s, k); const char* nn[] = {"DummyCrossSection", "ElasticScattering", "HNLDipoleFromTable"}; return poly<interactions::CrossSection>("interaction", nn[k], x); }
    case 11: { int k = (int)s.below(5); auto x = decay(s, k); const char* nn[] = {"HNLDecay", "HNLDipoleDecay", "ElectroweakDecay", "CharmMesonDecay", "CharmMesonDecay3Body"}; auto c = poly<interactions::Decay>("interaction", nn[k], x); c.slow = k >= 3; return c; }
    case 12: return poly<interactions::InteractionCollection>("interaction collection", "InteractionCollection", collection(s));
    case 13: { auto g = shape(s, 10, &n); return poly<geometry::Geometry>("geometry", n, g); }
    case 14: return poly<detector::DetectorModel>("detector model", "DetectorModel", detmodel(s));
    case 15: { auto p = std::make_shared<injection::PrimaryInjectionProcess>(PT::NuMu, nucoll()); p->AddPrimaryInjectionDistribution(energydist(s)); if(coin(s)) p->AddPrimaryInjectionDistribution(directiondist(s)); if(coin(s)) p->AddPrimaryInjectionDistribution(vertexdist(s)); return poly<injection::Process>("process", "PrimaryInjectionProcess", p); }
    case 16: { auto p = std::make_shared<injection::SecondaryInjectionProcess>(PT::N4, hnlcoll(0.1, 1e-6)); p->AddSecondaryInjectionDistribution(secondarydist(s)); return poly<injection::Process>("process", "SecondaryInjectionProcess", p); }
    default: { auto p = std::make_shared<injection::PhysicalProcess>(PT::NuMu, coin(s) ? collection(s) : nucoll()); p->AddPhysicalDistribution(energydist(s)); if(coin(s)) p->AddPhysicalDistribution(std::make_shared<distributions::NormalizationConstant>(2.5)); return poly<injection::Process>("process", "PhysicalProcess", p); }
  }
}
} // namespace comp
