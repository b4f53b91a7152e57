// Random seam: every uniform draw of SIREN code passes through here (ld --wrap).
#include "rt.h"
extern "C" double __real__ZN5siren9utilities12SIREN_random7UniformEdd(void*, double, double) __attribute__((weak));
extern "C" double __wrap__ZN5siren9utilities12SIREN_random7UniformEdd(void* self, double a, double b) {
  double v = __real__ZN5siren9utilities12SIREN_random7UniformEdd(self, a, b);
  double lo = a < b ? a : b, hi = a < b ? b : a;
  if(!(hi > lo)) { sim::rng_seam(0.5); return v; }
  double u = (v - lo) / (hi - lo), w = sim::rng_seam(u);
  return w == u ? v : lo + (hi - lo) * w;
}
