#pragma once
#include "sim.h"
namespace sim {
enum { MAXT = 16, NCOUNT = 48, MAX_CHOICES = 1 << 18, TRACE = 1 << 15, SCRATCH = 1 << 24 };
enum { ST_RUNNING = 0, ST_OK = 1, ST_FAIL = 2, ST_ERROR = 3 };
struct Counter { char name[40]; uint64_t n; };
struct Shared {
  int status; char cls[64]; char msg[2048]; char ctx[256]; char fcls[64]; int64_t t0;
  uint32_t replay; uint32_t nreplay; uint32_t pos; uint64_t prng;
  uint64_t loghash, inter, dist; uint64_t nlog, steps, child_steps, nswitch, npreempt, nfork; int trivial; int verbose; int used_scratch;
  uint64_t default_limit;
  Env env;
  Counter faults[NCOUNT], probes[NCOUNT];
  size_t tracelen, scratch_used;
  char scratchdir[512];
  char trace[TRACE];
  uint32_t choices[MAX_CHOICES], bounds[MAX_CHOICES], replay_choices[MAX_CHOICES];
  alignas(16) char scratch[SCRATCH];
};
extern Shared* S;
const std::vector<Scenario>& scenarios();
void enter_run(); void leave_run_ok(); void init_real(); void arena_init(); void wipe(const char* dir);
double rng_seam(double u);
}
