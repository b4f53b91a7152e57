// Deterministic simulation runtime: public interface used by the scenarios.
//
// Everything that is not decided by the code under test is decided by one
// sequence of choices (see choose()).  In a seeded run the choices come from a
// PRNG; in a replay they come from the replay file.  Value 0 always means "the
// simplest thing": no preemption, no fault, smallest input.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---- choices -------------------------------------------------------------
uint32_t choose(uint32_t n);                 // uniform in [0,n)
uint32_t choose_w(std::initializer_list<uint32_t> weights); // index, weighted
bool chance(double p);                       // true with probability p
uint64_t log_uniform(uint64_t max);          // 0..max, log-uniform magnitude
uint32_t u32();
uint64_t u64();
double unit();                               // [0,1)
double range(double lo, double hi);
bool replaying();
// an independent PRNG stream derived from one recorded choice (bulk data)
struct Stream { uint64_t s; explicit Stream(uint64_t s):s(s){} uint64_t next(); double unit(); uint32_t below(uint32_t n); };
Stream stream();

// ---- reporting -----------------------------------------------------------
// A violation: ends the run. cls identifies the kind (stable under minimisation).
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void internal_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // event history (hashed)
void fault(const char* kind);                // a fault fired
void probe(const char* name, uint64_t n = 1);// a rare condition was reached
void state(uint64_t h);                      // contributes to the distinctness hash of the run
void trivial(bool t);                        // mark the run as (non)trivial
void context(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // added to the message if the run dies or hangs

// ---- threads ---------------------------------------------------------------
struct ThreadOpts { bool race = false; uint64_t max_gap = 4096; uint64_t step_limit = 200000000ull; };
void run_threads(std::vector<std::function<void()>> bodies, ThreadOpts o = {});
int self();                                  // 0 = main, 1.. = simulated threads
bool threads_active();
void yield();                                // explicit scheduling point
uint64_t now_step();
struct StepGuard { StepGuard(uint64_t limit, const char* what); ~StepGuard(); uint64_t old; const char* oldw; };
void set_step_limit(uint64_t limit, const char* what);
struct NoPreempt { NoPreempt(); ~NoPreempt(); }; // harness sections that are not scheduling points

// ---- simulated processes ----------------------------------------------------
// Really forks; the child runs body to completion (in simulated isolation) while
// the parent is stopped. Returns when the child has ended.
void forked(std::function<void()> body);
void* shared_scratch(size_t bytes);          // memory shared with forked children

// ---- environment ------------------------------------------------------------
struct Env { int64_t t_sec, t_nsec; int pid; long hostid; int next_pid; };
Env& env();
void env_default();                          // fixed pid/host/clock
void env_random();                           // pid/host/clock from choices

// ---- disk -------------------------------------------------------------------
struct Disk {
  bool armed = false;
  // writes
  int64_t fail_write_at = -1;  int fail_write_errno = 28; bool fail_write_once = false;
  int64_t crash_at = -1;       // bytes after which nothing reaches the disk any more
  double p_short_write = 0, p_eintr_write = 0;
  bool fail_close = false;
  int fail_open_errno = 0; int fail_open_skip = 0;  // opens that still succeed before the failing one
  // reads
  int64_t fail_read_at = -1;   int fail_read_errno = 5;
  double p_short_read = 0, p_eintr_read = 0;
  // counters
  int64_t written = 0, readn = 0; bool crashed = false; bool write_failed = false, read_failed = false, close_failed = false, open_failed = false;
};
Disk& disk();
void disk_reset();
std::string scratch();                       // scratch directory of this run (tracked)
std::string slurp(const std::string& path);  // untouched by faults
void spit(const std::string& path, const std::string& data);
bool exists(const std::string& path);

// ---- memory -----------------------------------------------------------------
void alloc_cap(size_t bytes);                // single allocations above fail (0 = off)
void alloc_fail_at(int64_t nth);             // nth allocation from now on fails once (<0 off)
void fatal_class(const char* cls);            // a crash or hang from now on is reported under this class
void arena_fill(unsigned char c);            // pattern of fresh memory (default 0xcd)
void alloc_disarm();                         // stop failing, keep alloc_failed()
bool alloc_failed();

// ---- random seam --------------------------------------------------------------
// p of replacing a uniform draw by an extreme one (0 = leave the real stream).
void rng_extremes(double p, int max_k = 30);
// pass-through hook: each draw can be turned into an exception by the scenario
void rng_hook(std::function<void()> f);
uint64_t rng_draws();

// ---- scenarios ------------------------------------------------------------------
struct Scenario { const char* name; void (*run)(); void (*setup)(); const char* what; };
void add_scenario(Scenario s);
struct Reg { Reg(const char* n, void (*r)(), const char* what = "", void (*setup)() = nullptr) { add_scenario({n, r, setup, what}); } };

uint64_t mix(uint64_t h, uint64_t v);
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0x9e3779b97f4a7c15ull);
} // namespace sim

#define SIM_CHECK(cond, cls, ...) do { if(!(cond)) ::sim::fail(cls, __VA_ARGS__); } while(0)
