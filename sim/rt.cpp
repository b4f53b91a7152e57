// Deterministic simulation runtime.  Compiled WITHOUT instrumentation.
// The library under test is compiled with -fsanitize=thread but linked against
// the __tsan_* entry points below, so every memory access of SIREN code is a
// scheduling point that this file controls.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <atomic>
#include <cerrno>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <ftw.h>
#include <linux/futex.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <random>

namespace sim {

Shared* S = nullptr;
static bool g_in_run = false;      // inside a simulated run (child process)
static int g_rt_depth = 0;         // inside the runtime: hooks are off

// ------------------------------------------------------------------ choices
static uint64_t splitmix(uint64_t& s) { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
uint64_t hash_bytes(const void* p, size_t n, uint64_t h) { const unsigned char* c = (const unsigned char*)p; for(size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ull; } return h ^ (h >> 29); }

static uint32_t record(uint32_t generated, uint32_t n) {
  if(n <= 1) return 0;
  uint32_t v;
  if(S->replay) { v = S->pos < S->nreplay ? S->replay_choices[S->pos] : 0; if(v >= n) v %= n; }
  else v = generated;
  if(S->pos >= MAX_CHOICES) { if(S->replay) return 0; internal_error("too many choices"); }
  S->choices[S->pos] = v; S->bounds[S->pos] = n; S->pos++;
  return v;
}
static uint64_t gen() { return splitmix(S->prng); }
bool replaying() { return S->replay; }
uint32_t choose(uint32_t n) { return n <= 1 ? 0 : record(S->replay ? 0 : (uint32_t)(((gen() >> 32) * (uint64_t)n) >> 32), n); }
uint32_t choose_w(std::initializer_list<uint32_t> w) {
  uint64_t tot = 0; for(auto x : w) tot += x; uint32_t g = 0;
  if(!S->replay && tot) { uint64_t r = gen() % tot; for(auto x : w) { if(r < x) break; r -= x; ++g; } }
  return record(g, (uint32_t)w.size());
}
bool chance(double p) { if(p <= 0) return false; uint32_t g = 0; if(!S->replay) g = (double)(gen() >> 11) * 0x1p-53 < p; return record(g, 2); }
uint64_t log_uniform(uint64_t max) {
  if(max > 0xfffffffeull) max = 0xfffffffeull;
  uint32_t g = 0;
  if(!S->replay) { int bits = 0; while((1ull << bits) <= max) bits++; int b = (int)(gen() % (bits + 1)); uint64_t hi = 1ull << b; g = (uint32_t)(gen() % hi); if(g > max) g = (uint32_t)max; }
  return record(g, (uint32_t)max + 1);
}
uint32_t u32() { return record((uint32_t)gen(), 0xffffffffu); }
uint64_t u64() { uint64_t a = u32(); return (a << 32) | u32(); }
double unit() { return (double)u32() * 0x1p-32; }
double range(double lo, double hi) { return lo + (hi - lo) * unit(); }
uint64_t Stream::next() { return splitmix(s); }
double Stream::unit() { return (double)(next() >> 11) * 0x1p-53; }
uint32_t Stream::below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
Stream stream() { return Stream(u32()); }

// ------------------------------------------------------------------ reporting
static void bump(Counter* t, int n, const char* k, uint64_t by) {
  for(int i = 0; i < n; ++i) {
    if(t[i].name[0] == 0) { strncpy(t[i].name, k, sizeof t[i].name - 1); t[i].n += by; return; }
    if(!strncmp(t[i].name, k, sizeof t[i].name - 1)) { t[i].n += by; return; }
  }
}
void fault(const char* k) { bump(S->faults, NCOUNT, k, 1); log("fault %s", k); }
void probe(const char* k, uint64_t n) { if(n) bump(S->probes, NCOUNT, k, n); }
void state(uint64_t h) { S->dist = mix(S->dist, h); }
void trivial(bool t) { S->trivial = t; }
void fatal_class(const char* c) { snprintf(S->fcls, sizeof S->fcls, "%s", c); }
void context(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(S->ctx, sizeof S->ctx, fmt, ap); va_end(ap); }
void log(const char* fmt, ...) {
  char b[512]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if(n > (int)sizeof b - 1) n = sizeof b - 1;
  S->loghash = hash_bytes(b, n, S->loghash); S->nlog++;
  size_t len = strlen(b);
  if(S->tracelen + len + 24 < TRACE) { S->tracelen += snprintf(S->trace + S->tracelen, TRACE - S->tracelen, "[%d@%llu] %s\n", self(), (unsigned long long)now_step(), b); }
  if(S->verbose) fprintf(stderr, "[%d@%llu] %s\n", self(), (unsigned long long)now_step(), b);
}
static void finish(int status, const char* cls, const char* msg) {
  if(S->status == ST_RUNNING) {
    S->status = status; strncpy(S->cls, cls, sizeof S->cls - 1); strncpy(S->msg, msg, sizeof S->msg - 1);
    S->steps = now_step();
  }
  syscall(SYS_exit_group, 0);
  abort();
}
void fail(const char* cls, const char* fmt, ...) {
  char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  log("VIOLATION %s", cls);
  finish(ST_FAIL, cls, b); abort();
}
void internal_error(const char* fmt, ...) {
  char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  finish(ST_ERROR, "internal", b); abort();
}

// ------------------------------------------------------------------ threads
struct VC { uint32_t c[MAXT]; };
struct Th { int id = 0; int futex = 0; int st = 0; const void* wait = nullptr; bool timed = false, timedout = false; pthread_t pt{}; std::function<void()> body; uintptr_t lo = 0, hi = 0; VC vc; void* (*start)(void*) = nullptr; void* arg = nullptr; };
enum { T_RUN = 0, T_BLOCK = 1, T_DONE = 2 };
static Th g_th[MAXT]; static int g_nth = 1; static int g_cur = 0;
static bool g_sched = false; static bool g_race = false; static int g_nopre = 0;
static uint64_t g_maxgap = 4096;
static int64_t g_left = INT64_MAX / 4, g_quantum = INT64_MAX / 4;
static uint64_t g_steps = 0, g_limit = UINT64_MAX / 4; static const char* g_limit_what = "run";
static int64_t g_pre = INT64_MAX / 4;   // accesses until preemption
static thread_local int t_id = 0;

int self() { return g_cur; }
bool threads_active() { return g_sched; }
uint64_t now_step() { return g_steps + (uint64_t)(g_quantum - g_left); }
static void settle() { int64_t e = g_quantum - g_left; g_steps += e; if(g_pre < INT64_MAX / 8) g_pre -= e; g_quantum = g_left = 0; }
static void arm() {
  int64_t lim = g_limit > g_steps ? (int64_t)(g_limit - g_steps) : 0;
  int64_t q = g_sched && g_pre < lim ? g_pre : lim; if(q < 1) q = 1; g_quantum = g_left = q;
}
void set_step_limit(uint64_t l, const char* w) { settle(); g_limit = g_steps + l; g_limit_what = w; arm(); }
StepGuard::StepGuard(uint64_t l, const char* w) { settle(); old = g_limit; oldw = g_limit_what; if(g_steps + l < g_limit) { g_limit = g_steps + l; g_limit_what = w; } arm(); }
StepGuard::~StepGuard() { settle(); g_limit = old; g_limit_what = oldw; arm(); }
NoPreempt::NoPreempt() { g_nopre++; } NoPreempt::~NoPreempt() { g_nopre--; }

static void fwait(int* f) { while(__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(f, 0, __ATOMIC_RELEASE); }
static void fwake(int* f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void draw_gap() {
  // 0: run until it blocks or ends
  uint32_t g = 0;
  if(!S->replay) { if((gen() & 7) != 0) { int bits = 0; while((1ull << bits) < g_maxgap) bits++; int b = 1 + (int)(gen() % bits); g = 1 + (uint32_t)(gen() % (1ull << b)); } }
  g = record(g, (uint32_t)(2 * g_maxgap + 2));
  g_pre = g ? (int64_t)g : INT64_MAX / 4;
}
static void vjoin(VC& a, const VC& b) { for(int i = 0; i < MAXT; ++i) if(b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static void switch_to(int n) {
  // baton from g_cur to n
  int me = g_cur; if(n == me) return;
  S->nswitch++; S->inter = mix(S->inter, (uint64_t)n * 1000003u + now_step());
  bool done = g_th[me].st == T_DONE && me != 0; // read before the baton leaves
  g_cur = n; fwake(&g_th[n].futex);
  if(done) return;
  fwait(&g_th[me].futex);
}
static int pick_other(bool include_self) {
  int r[MAXT], k = 0;
  for(int d = include_self ? 0 : 1; d < g_nth; ++d) { int i = (g_cur + d) % g_nth; if(g_th[i].st == T_RUN) r[k++] = i; }
  if(!k) return -1;
  return r[choose(k)];
}
static void slow(void* pc) {
  settle();
  if(g_steps >= g_limit) { g_rt_depth++; g_left = g_quantum = INT64_MAX / 4; fail(S->fcls[0] ? S->fcls : "hang", "no progress: %s did not finish within its step budget (%llu memory accesses)%s%s", g_limit_what, (unsigned long long)g_limit, S->ctx[0] ? ": " : "", S->ctx); }
  if(g_sched && g_pre <= 0) {
    if(g_nopre || g_rt_depth) { g_pre = 1; arm(); return; }
    g_rt_depth++;
    int n = pick_other(false);
    if(n >= 0) { S->npreempt++; S->inter = mix(S->inter, (uint64_t)((uintptr_t)pc & 0xffffff)); }
    draw_gap(); arm();
    g_rt_depth--;
    if(n >= 0) switch_to(n);
    return;
  }
  arm();
}
void yield() { if(g_sched && !g_rt_depth) { if(--g_left <= 0) slow(nullptr); } }
// block current thread; returns false if nothing can ever wake it (reported)
static void block_on(const void* o, bool timed = false) {
  Th& t = g_th[g_cur]; t.st = T_BLOCK; t.wait = o; t.timed = timed; t.timedout = false;
  g_rt_depth++;
  int n = pick_other(false);
  if(n < 0) {
    // let a timed waiter expire
    int r[MAXT], k = 0; for(int i = 0; i < g_nth; ++i) if(g_th[i].st == T_BLOCK && g_th[i].timed) r[k++] = i;
    if(k) { n = r[choose(k)]; g_th[n].timedout = true; g_th[n].st = T_RUN; g_th[n].wait = nullptr; S->env.t_sec += 1; }
    else fail("deadlock", "every thread is blocked: thread %d waits for a lock that is never released", g_cur);
  }
  settle(); draw_gap(); arm(); g_rt_depth--;
  if(n != g_cur) switch_to(n);
}
static void wake(const void* o, bool all = true) {
  int r[MAXT], k = 0; for(int i = 0; i < g_nth; ++i) if(g_th[i].st == T_BLOCK && g_th[i].wait == o) r[k++] = i;
  if(!k) return;
  if(all) { for(int i = 0; i < k; ++i) { g_th[r[i]].st = T_RUN; g_th[r[i]].wait = nullptr; } return; }
  g_rt_depth++; int n = r[choose(k)]; g_rt_depth--; g_th[n].st = T_RUN; g_th[n].wait = nullptr;
}

// ---- happens-before race detection
struct SyncVar { const void* a; VC vc; };
static const uint32_t NSYNC = 1 << 14; static SyncVar* g_sync;
struct Cell { uintptr_t g; uint32_t wclk; uint8_t wtid, wmask; uint8_t rmask[MAXT]; uint32_t rclk[MAXT]; void* wpc; void* rpc; };
static const uint32_t NCELL = 1 << 18; static Cell* g_cell;
static SyncVar* sv(const void* a) {
  uint32_t h = (uint32_t)(((uintptr_t)a >> 2) * 0x9E3779B1u) & (NSYNC - 1);
  for(uint32_t i = 0; i < NSYNC; ++i) { SyncVar* s = &g_sync[(h + i) & (NSYNC - 1)]; if(s->a == a) return s; if(!s->a) { s->a = a; return s; } }
  return nullptr;
}
static void hb_acquire(const void* a) { if(!g_race) return; SyncVar* s = sv(a); if(s) vjoin(g_th[g_cur].vc, s->vc); else g_race = false; }
static void hb_release(const void* a) { if(!g_race) return; SyncVar* s = sv(a); if(s) { vjoin(s->vc, g_th[g_cur].vc); g_th[g_cur].vc.c[g_cur]++; } else g_race = false; }
static const char* symname(void* pc, char* buf, size_t n) {
  Dl_info d; if(dladdr(pc, &d) && d.dli_fname) { snprintf(buf, n, "%s+0x%lx", d.dli_sname ? d.dli_sname : "?", (unsigned long)((uintptr_t)pc - (uintptr_t)(d.dli_saddr ? d.dli_saddr : d.dli_fbase))); } else snprintf(buf, n, "?");
  return buf;
}
static void race_access(uintptr_t a, unsigned n, bool w, void* pc) {
  if(g_rt_depth || !g_sched) return;
  for(int i = 0; i < g_nth; ++i) if(a >= g_th[i].lo && a < g_th[i].hi) return; // stacks
  int me = g_cur; VC& vc = g_th[me].vc;
  while(n) {
    uintptr_t g = a >> 3; unsigned off = a & 7, len = 8 - off; if(len > n) len = n; uint8_t m = (uint8_t)(((1u << len) - 1) << off);
    Cell& c = g_cell[(uint32_t)(g * 0x9E3779B97F4A7C15ull >> 40) & (NCELL - 1)];
    if(c.g != g) { memset(&c, 0, sizeof c); c.g = g; }
    char b1[200], b2[200];
    if(c.wclk && (c.wmask & m) && c.wtid != me && c.wclk > vc.c[c.wtid]) {
      fail("data-race", "unsynchronised %s of memory written by another thread: thread %d at %s, previous write by thread %d at %s", w ? "write" : "read", me, symname(pc, b1, sizeof b1), c.wtid, symname(c.wpc, b2, sizeof b2));
    }
    if(w) {
      for(int t = 0; t < g_nth; ++t) if(t != me && c.rclk[t] && (c.rmask[t] & m) && c.rclk[t] > vc.c[t])
        fail("data-race", "unsynchronised write of memory read by another thread: thread %d at %s, previous read by thread %d at %s", me, symname(pc, b1, sizeof b1), t, symname(c.rpc, b2, sizeof b2));
      c.wclk = vc.c[me]; c.wtid = me; c.wmask = m; c.wpc = pc;
    } else { if(c.rclk[me] == vc.c[me]) c.rmask[me] |= m; else c.rmask[me] = m; c.rclk[me] = vc.c[me]; c.rpc = pc; }
    a += len; n -= len;
  }
}
static void race_forget(void* p, size_t n) {
  uintptr_t a = (uintptr_t)p >> 3, e = ((uintptr_t)p + n + 7) >> 3;
  for(; a < e; ++a) { Cell& c = g_cell[(uint32_t)(a * 0x9E3779B97F4A7C15ull >> 40) & (NCELL - 1)]; if(c.g == a) memset(&c, 0, sizeof c); }
}

static void stack_bounds(Th& t) {
  pthread_attr_t at; void* lo; size_t sz;
  if(pthread_getattr_np(pthread_self(), &at) == 0) { pthread_attr_getstack(&at, &lo, &sz); t.lo = (uintptr_t)lo; t.hi = t.lo + sz; pthread_attr_destroy(&at); }
}
static void thread_done() {
  g_rt_depth++;
  Th& t = g_th[g_cur]; t.st = T_DONE; hb_release(&t); wake(&t);
  int n = pick_other(false);
  if(n < 0) fail("deadlock", "all remaining threads are blocked for ever after thread %d ended", g_cur);
  settle(); draw_gap(); arm(); g_rt_depth--;
  switch_to(n);
  static int never; for(;;) fwait(&never); // parked: thread exit code must not run concurrently
}
static void* thread_main(void* p) {
  Th& t = *(Th*)p; t_id = t.id;
  fwait(&t.futex);
  g_rt_depth++; stack_bounds(t); g_rt_depth--;
  void* ret = nullptr;
  if(t.start) ret = t.start(t.arg);
  else {
    try { t.body(); }
    catch(std::exception const& e) { fail("uncaught-exception", "thread %d ended with an unexpected exception: %s", t.id, e.what()); }
    catch(...) { fail("uncaught-exception", "thread %d ended with an unexpected exception", t.id); }
  }
  thread_done();
  return ret;
}
static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_pthread_join)(pthread_t, void**);
static int spawn_thread(std::function<void()> f, void* (*start)(void*), void* arg, pthread_t* out) {
  if(g_nth >= MAXT) internal_error("too many simulated threads");
  g_rt_depth++;
  Th& t = g_th[g_nth]; t.id = g_nth; t.futex = 0; t.st = T_RUN; t.wait = nullptr; t.body = std::move(f); t.start = start; t.arg = arg; t.lo = t.hi = 0;
  t.vc = g_th[g_cur].vc; g_th[g_cur].vc.c[g_cur]++; t.vc.c[t.id] = 1;
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
  int r = real_pthread_create(&t.pt, &at, thread_main, &t);
  pthread_attr_destroy(&at);
  if(r == 0) { if(out) *out = t.pt; g_nth++; } 
  g_rt_depth--;
  return r;
}
void run_threads(std::vector<std::function<void()>> bodies, ThreadOpts o) {
  if(g_cur != 0 || g_sched) internal_error("run_threads from a simulated thread");
  g_nth = 1; g_th[0].id = 0; g_th[0].st = T_RUN; stack_bounds(g_th[0]); memset(&g_th[0].vc, 0, sizeof(VC)); g_th[0].vc.c[0] = 1;
  g_race = false;
  if(o.race) {
    if(!g_cell) { g_cell = (Cell*)mmap(nullptr, sizeof(Cell) * NCELL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); g_sync = (SyncVar*)mmap(nullptr, sizeof(SyncVar) * NSYNC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    else { madvise(g_cell, sizeof(Cell) * NCELL, MADV_DONTNEED); madvise(g_sync, sizeof(SyncVar) * NSYNC, MADV_DONTNEED); }
  }
  uint64_t lim = g_limit; const char* lw = g_limit_what;
  settle(); g_limit = g_steps + o.step_limit; g_limit_what = "a set of threads";
  // swarm: scale of the preemption gaps differs from run to run
  { int bits = 0; while((1ull << bits) < o.max_gap) bits++; uint32_t s = choose(bits > 2 ? bits - 1 : 1); g_maxgap = o.max_gap >> s; if(g_maxgap < 4) g_maxgap = 4; }
  for(auto& b : bodies) if(spawn_thread(std::move(b), nullptr, nullptr, nullptr)) internal_error("pthread_create");
  g_race = o.race; g_sched = true;
  // main waits for everybody
  for(;;) {
    int live = 0; for(int i = 1; i < g_nth; ++i) if(g_th[i].st != T_DONE) live++;
    if(!live) break;
    int target = -1; for(int i = 1; i < g_nth; ++i) if(g_th[i].st != T_DONE) { target = i; break; }
    block_on(&g_th[target]);
    hb_acquire(&g_th[target]);
  }
  g_sched = false; bool r = g_race; g_race = false; (void)r;
  g_nth = 1; settle(); g_pre = INT64_MAX / 4; g_limit = lim; g_limit_what = lw; arm();
}

// ------------------------------------------------------------------ processes
Env& env() { return S->env; }
void env_default() { S->env = Env{1700000000, 0, 4242, 0x7f0101, 4243}; S->t0 = S->env.t_sec; }
void env_random() { S->env.t_sec = 1500000000 + (int64_t)log_uniform(400000000); S->env.t_nsec = 0; S->env.pid = 1 + (int)log_uniform(4000000); S->env.next_pid = S->env.pid + 1 + (int)log_uniform(1000); S->env.hostid = (long)(int)u32(); S->t0 = S->env.t_sec; }
void forked(std::function<void()> body) {
  g_rt_depth++;
  int saved = S->env.pid; int child = S->env.next_pid; S->env.next_pid += 1 + (int)choose(3); S->nfork++;
  settle(); uint64_t steps0 = g_steps; arm();
  fflush(nullptr);
  long p = fork();
  if(p < 0) internal_error("fork failed");
  if(p == 0) {
    S->env.pid = child;
    // only the calling thread exists here
    int me = g_cur; if(me != 0) { uintptr_t lo = g_th[me].lo, hi = g_th[me].hi; g_th[0].lo = lo; g_th[0].hi = hi; }
    g_cur = 0; g_nth = 1; g_th[0].st = T_RUN; g_sched = false; g_race = false; g_rt_depth = 0; g_nopre = 0; t_id = 0;
    settle(); g_pre = INT64_MAX / 4; arm();
    try { body(); } catch(std::exception const& e) { fail("uncaught-exception", "forked process ended with an unexpected exception: %s", e.what()); } catch(...) { fail("uncaught-exception", "forked process ended with an unexpected exception"); }
    S->child_steps += now_step() - steps0;
    syscall(SYS_exit_group, 77); abort();
  }
  int st; while(waitpid((pid_t)p, &st, 0) < 0 && errno == EINTR) {}
  if(S->status != ST_RUNNING) syscall(SYS_exit_group, 0);
  if(!WIFEXITED(st) || WEXITSTATUS(st) != 77) fail("crash", "a forked process died unexpectedly (wait status %d)", st);
  S->env.pid = saved; g_rt_depth--;
}
void* shared_scratch(size_t n) { if(S->scratch_used + n > SCRATCH) internal_error("shared scratch exhausted"); void* p = S->scratch + S->scratch_used; S->scratch_used += (n + 15) & ~15ull; return p; }

// ------------------------------------------------------------------ disk
static Disk g_disk; static const int MAXFD = 1024; struct Fd { bool tracked; bool wr; }; static Fd g_fd[MAXFD];
static std::string* g_root;
Disk& disk() { return g_disk; }
void disk_reset() { g_disk = Disk(); }
static bool under_root(const char* p) { while(p && p[0] == '/' && p[1] == '/') ++p; return g_root && p && !strncmp(p, g_root->c_str(), g_root->size()); }
static int rmcb(const char* p, const struct stat*, int, struct FTW*) { remove(p); return 0; }
void wipe(const char* dir) { nftw(dir, rmcb, 16, FTW_DEPTH | FTW_PHYS); }
std::string scratch() {
  if(!g_root) { g_root = new std::string(S->scratchdir); mkdir(g_root->c_str(), 0700); S->used_scratch = 1; }
  return *g_root;
}
#define REAL(name) static decltype(&::name) real_##name; if(!real_##name) { real_##name = (decltype(&::name))dlsym(RTLD_NEXT, #name); }
std::string slurp(const std::string& path) { g_rt_depth++; std::string r; int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY); if(fd >= 0) { char b[65536]; long n; while((n = syscall(SYS_read, fd, b, sizeof b)) > 0) r.append(b, n); syscall(SYS_close, fd); } g_rt_depth--; return r; }
void spit(const std::string& path, const std::string& d) { g_rt_depth++; int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if(fd < 0) internal_error("spit %s", path.c_str()); size_t o = 0; while(o < d.size()) { long n = syscall(SYS_write, fd, d.data() + o, d.size() - o); if(n <= 0) internal_error("spit write"); o += n; } syscall(SYS_close, fd); g_rt_depth--; }
bool exists(const std::string& p) { struct stat st; return ::stat(p.c_str(), &st) == 0; }

static bool open_fault(const char* path, bool wr) {
  if(!g_disk.armed || !under_root(path)) return false;
  if(g_disk.fail_open_errno && g_disk.fail_open_skip-- <= 0) { g_disk.open_failed = true; fault("open-error"); errno = g_disk.fail_open_errno; return true; }
  (void)wr; return false;
}
static void track(int fd, bool wr) { if(fd >= 0 && fd < MAXFD) { g_fd[fd].tracked = true; g_fd[fd].wr = wr; } }
static bool tracked(int fd) { return g_in_run && fd >= 0 && fd < MAXFD && g_fd[fd].tracked && g_disk.armed && !g_rt_depth; }

static long do_write(int fd, const void* b, size_t n, const std::function<long(const void*, size_t)>& raw) {
  Disk& d = g_disk;
  if(d.p_eintr_write > 0 && chance(d.p_eintr_write)) { fault("write-eintr"); errno = EINTR; return -1; }
  size_t len = n;
  if(d.p_short_write > 0 && n > 1 && chance(d.p_short_write)) { len = 1 + choose((uint32_t)(n - 1)); fault("short-write"); }
  if(d.fail_write_at >= 0 && d.written + (int64_t)len > d.fail_write_at && !(d.fail_write_once && d.write_failed)) {
    int64_t room = d.fail_write_at - d.written; if(room < 0) room = 0;
    if(room == 0) { d.write_failed = true; fault(d.fail_write_errno == ENOSPC ? "disk-full" : "write-error"); errno = d.fail_write_errno; return -1; }
    len = (size_t)room; // partial write up to the failing byte
  }
  long done = (long)len;
  if(d.crash_at >= 0 && d.written + (int64_t)len > d.crash_at) {
    int64_t keep = d.crash_at - d.written; if(keep < 0) keep = 0; if(!d.crashed) { fault(keep ? "crash-torn-write" : "crash"); d.crashed = true; }
    if(keep) raw(b, keep);
  } else { done = raw(b, len); }
  if(done > 0) d.written += done;
  return done;
}

// ------------------------------------------------------------------ memory
static size_t g_cap = 0; static int64_t g_failat = -1; static bool g_allocfailed = false;
void alloc_cap(size_t b) { g_cap = b; }
void alloc_fail_at(int64_t n) { g_failat = n; g_allocfailed = false; }
void alloc_disarm() { g_failat = -1; }
bool alloc_failed() { return g_allocfailed; }
// Inside a run, operator new is served from an arena that is identical at the
// start of every run, so that memory layout does not depend on what the driver
// did before.  Fresh and freed memory is filled with a pattern.
static char* g_arena; static size_t g_arena_used; static const size_t ARENA = 24ull << 30; static unsigned char g_fill = 0xcd;
struct ABlk { uint64_t cls; uint64_t size; }; static ABlk* g_free[64]; // free list: payload holds next
static const uintptr_t ARENA_BASE = 0x200000000000ull;
static inline bool in_arena(const void* p) { return (uintptr_t)p - ARENA_BASE < ARENA; }
void arena_fill(unsigned char c) { g_fill = c; }
void arena_init() { void* p = mmap((void*)ARENA_BASE, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if(p != (void*)ARENA_BASE) { perror("arena"); _exit(2); } g_arena = (char*)p; g_arena_used = 0; }
static void* arena_alloc(size_t n) {
  int c; size_t sz;
  if(n <= 1024) { c = (int)((n + 31) / 32); if(!c) c = 1; sz = (size_t)c * 32; c -= 1; }   // classes 0..31
  else { c = 32; sz = 2048; while(sz < n && c < 63) { sz <<= 1; ++c; } if(sz < n) return nullptr; }
  ABlk* b = g_free[c];
  if(b) g_free[c] = *(ABlk**)(b + 1);
  else { size_t need = sz + sizeof(ABlk); if(g_arena_used + need > ARENA) return nullptr; b = (ABlk*)(g_arena + g_arena_used); g_arena_used += need; b->cls = (uint64_t)c; }
  b->size = n; memset(b + 1, g_fill, n < 4096 ? n : 4096); return b + 1;
}
static size_t arena_size(void* p) { return ((ABlk*)p - 1)->size; }
static void arena_free(void* p) { ABlk* b = (ABlk*)p - 1; if(b->cls >= 64 || b->size == (size_t)-1) { g_rt_depth++; fail(S->fcls[0] ? S->fcls : "heap-corruption", "memory was released twice or its bookkeeping was overwritten%s%s", S->ctx[0] ? ": " : "", S->ctx); } size_t n = b->size; b->size = (size_t)-1; memset(p, 0xdd, n < 1024 ? n : 1024); if(n > (1u << 20)) madvise((void*)(((uintptr_t)p + 8191) & ~4095ull), (n - 8192) & ~4095ull, MADV_DONTNEED); *(ABlk**)(b + 1) = g_free[b->cls]; g_free[b->cls] = b; }
static void* do_new(size_t n) {
  if(g_in_run && !g_rt_depth) {
    if(g_cap && n > g_cap) { fault("allocation-too-large"); throw std::bad_alloc(); }
    if(g_failat >= 0 && g_failat-- == 0) { g_allocfailed = true; fault("allocation-failure"); throw std::bad_alloc(); }
  }
  void* p = g_in_run ? arena_alloc(n) : malloc(n ? n : 1); if(!p) throw std::bad_alloc(); return p;
}
static void do_delete(void* p) { if(!p) return; bool a = in_arena(p); if(g_race && g_sched && !g_rt_depth) race_forget(p, a ? arena_size(p) : malloc_usable_size(p)); if(a) arena_free(p); else free(p); }

// ------------------------------------------------------------------ random seam
static double g_pext = 0; static int g_kext = 30; static std::function<void()>* g_rhook; static uint64_t g_draws;
void rng_extremes(double p, int k) { g_pext = p; g_kext = k; }
void rng_hook(std::function<void()> f) { delete g_rhook; g_rhook = f ? new std::function<void()>(std::move(f)) : nullptr; }
uint64_t rng_draws() { return g_draws; }
static double last_u = 0.5;
double rng_seam(double real_unit) {
  g_draws++;
  if(g_rhook && *g_rhook) (*g_rhook)();
  if(g_pext > 0 && chance(g_pext)) {
    uint32_t w = choose(3); double u;
    if(w == 0) u = std::ldexp(1.0, -(int)(1 + choose(g_kext))); else if(w == 1) u = 1.0 - std::ldexp(1.0, -(int)(1 + choose(g_kext))); else u = last_u;
    fault("extreme-random"); last_u = u; return u;
  }
  last_u = real_unit; return real_unit;
}

// ------------------------------------------------------------------ scenarios
static std::vector<Scenario>* g_sc;
void add_scenario(Scenario s) { if(!g_sc) g_sc = new std::vector<Scenario>; g_sc->push_back(s); }
const std::vector<Scenario>& scenarios() { if(!g_sc) g_sc = new std::vector<Scenario>; return *g_sc; }

void enter_run() { g_in_run = true; g_steps = 0; g_limit = UINT64_MAX / 4; g_left = g_quantum = INT64_MAX / 4; g_cur = 0; g_nth = 1; g_draws = 0; set_step_limit(S->default_limit, "the run"); env_default(); disk_reset(); }
void leave_run_ok() { finish(ST_OK, "", ""); }
void init_real() {
  real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
  real_pthread_join = (decltype(real_pthread_join))dlsym(RTLD_NEXT, "pthread_join");
}
static inline bool insim() { return g_sched && !g_rt_depth; }
static inline void hook(void* a, unsigned n, bool w, void* pc) { if(__builtin_expect(g_race, 0)) race_access((uintptr_t)a, n, w, pc); if(__builtin_expect(--g_left <= 0, 0)) slow(pc); }
static inline void ahook(const volatile void* a, void* pc) { if(__builtin_expect(--g_left <= 0, 0)) slow(pc); if(g_race && insim()) { hb_acquire((const void*)a); } }
static inline void ahook_post(const volatile void* a) { if(g_race && insim()) hb_release((const void*)a); }
} // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)

// ------------------------------------------------------------------ __tsan_*
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
  void __tsan_read##N(void* a) { hook(a, N, false, PC); } void __tsan_write##N(void* a) { hook(a, N, true, PC); } \
  void __tsan_unaligned_read##N(void* a) { hook(a, N, false, PC); } void __tsan_unaligned_write##N(void* a) { hook(a, N, true, PC); } \
  void __tsan_volatile_read##N(void* a) { hook(a, N, false, PC); } void __tsan_volatile_write##N(void* a) { hook(a, N, true, PC); } \
  void __tsan_unaligned_volatile_read##N(void* a) { hook(a, N, false, PC); } void __tsan_unaligned_volatile_write##N(void* a) { hook(a, N, true, PC); } \
  void __tsan_read_write##N(void* a) { hook(a, N, true, PC); } void __tsan_unaligned_read_write##N(void* a) { hook(a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { hook(a, (unsigned)n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { hook(a, (unsigned)n, true, PC); }
void __tsan_vptr_update(void** a, void*) { hook(a, 8, true, PC); }
void __tsan_vptr_read(void** a) { hook(a, 8, false, PC); }
void __tsan_atomic_thread_fence(int) { static char fence; ahook(&fence, PC); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T* a, int) { ahook(a, PC); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int) { ahook(a, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); ahook_post(a); } \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { ahook(a, PC); T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); ahook_post(a); return r; } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { ahook(a, PC); T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); ahook_post(a); return r; } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { ahook(a, PC); T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); ahook_post(a); return r; } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { ahook(a, PC); T r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); ahook_post(a); return r; } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { ahook(a, PC); T r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); ahook_post(a); return r; } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { ahook(a, PC); T r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); ahook_post(a); return r; } \
  T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { ahook(a, PC); T r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); ahook_post(a); return r; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { ahook(a, PC); int r = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); ahook_post(a); return r; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { ahook(a, PC); int r = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); ahook_post(a); return r; } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int, int) { ahook(a, PC); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); ahook_post(a); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)

// ------------------------------------------------------------------ static-local guards
// (the run is single-threaded at the OS level whenever this code executes)
int __cxa_guard_acquire(uint64_t* g) {
  volatile unsigned char* b = (volatile unsigned char*)g;
  for(;;) {
    if(insim()) { sim::yield(); }
    if(b[0]) { if(g_race && insim()) hb_acquire(g); return 0; }
    if(!b[1]) { b[1] = 1; if(g_race && insim()) hb_acquire(g); return 1; }
    if(!insim()) abort(); // recursive initialisation
    block_on(g);
  }
}
void __cxa_guard_release(uint64_t* g) { volatile unsigned char* b = (volatile unsigned char*)g; b[1] = 0; b[0] = 1; if(insim()) { if(g_race) hb_release(g); wake(g); sim::yield(); } }
void __cxa_guard_abort(uint64_t* g) { volatile unsigned char* b = (volatile unsigned char*)g; b[1] = 0; if(insim()) { if(g_race) hb_release(g); wake(g); } }

// ------------------------------------------------------------------ pthreads
static int mtx_lock(pthread_mutex_t* m) {
  static int (*tr)(pthread_mutex_t*); if(!tr) tr = (decltype(tr))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  sim::yield();
  for(;;) { int r = tr(m); if(r != EBUSY) { if(r == 0 || r == EOWNERDEAD) hb_acquire(m); return r; } probe("lock-contended"); block_on(m); }
}
int pthread_mutex_lock(pthread_mutex_t* m) __THROWNL { static int (*r)(pthread_mutex_t*); if(!r) r = (decltype(r))dlsym(RTLD_NEXT, "pthread_mutex_lock"); if(!insim()) return r(m); return mtx_lock(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) __THROWNL { static int (*r)(pthread_mutex_t*); if(!r) r = (decltype(r))dlsym(RTLD_NEXT, "pthread_mutex_trylock"); if(insim()) sim::yield(); int x = r(m); if(x == 0 && insim()) hb_acquire(m); return x; }
int pthread_mutex_unlock(pthread_mutex_t* m) __THROWNL { static int (*r)(pthread_mutex_t*); if(!r) r = (decltype(r))dlsym(RTLD_NEXT, "pthread_mutex_unlock"); if(insim()) hb_release(m); int x = r(m); if(insim()) { wake(m); sim::yield(); } return x; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) __THROWNL { if(!insim()) return pthread_mutex_lock(m); return mtx_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) __THROWNL { if(!insim()) return pthread_mutex_lock(m); return mtx_lock(m); }
static int rw_lock(pthread_rwlock_t* m, const char* tn) {
  int (*tr)(pthread_rwlock_t*) = (int (*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, tn);
  sim::yield();
  for(;;) { int r = tr(m); if(r != EBUSY && r != EAGAIN) { if(r == 0) hb_acquire(m); return r; } probe("lock-contended"); block_on(m); }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) __THROWNL { if(insim()) return rw_lock(m, "pthread_rwlock_tryrdlock"); static int (*r)(pthread_rwlock_t*); if(!r) r = (decltype(r))dlsym(RTLD_NEXT, "pthread_rwlock_rdlock"); return r(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) __THROWNL { if(insim()) return rw_lock(m, "pthread_rwlock_trywrlock"); static int (*r)(pthread_rwlock_t*); if(!r) r = (decltype(r))dlsym(RTLD_NEXT, "pthread_rwlock_wrlock"); return r(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) __THROWNL { static int (*r)(pthread_rwlock_t*); if(!r) r = (decltype(r))dlsym(RTLD_NEXT, "pthread_rwlock_unlock"); if(insim()) hb_release(m); int x = r(m); if(insim()) { wake(m); sim::yield(); } return x; }
int pthread_spin_lock(pthread_spinlock_t* m) __THROWNL { static int (*r)(pthread_spinlock_t*); static int (*tr)(pthread_spinlock_t*); if(!r) { r = (decltype(r))dlsym(RTLD_NEXT, "pthread_spin_lock"); tr = (decltype(tr))dlsym(RTLD_NEXT, "pthread_spin_trylock"); } if(!insim()) return r(m); sim::yield(); for(;;) { int x = tr(m); if(x != EBUSY) { hb_acquire((void*)m); return x; } block_on((void*)m); } }
int pthread_spin_unlock(pthread_spinlock_t* m) __THROWNL { static int (*r)(pthread_spinlock_t*); if(!r) r = (decltype(r))dlsym(RTLD_NEXT, "pthread_spin_unlock"); if(insim()) hb_release((void*)m); int x = r(m); if(insim()) { wake((void*)m); sim::yield(); } return x; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  pthread_mutex_unlock(m); block_on(c, timed); bool to = g_th[g_cur].timedout; hb_acquire(c); mtx_lock(m); return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if(insim()) return cond_wait(c, m, false); static int (*r)(pthread_cond_t*, pthread_mutex_t*); if(!r) r = (decltype(r))dlsym(RTLD_NEXT, "pthread_cond_wait"); return r(c, m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { if(insim()) return cond_wait(c, m, true); static int (*r)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*); if(!r) r = (decltype(r))dlsym(RTLD_NEXT, "pthread_cond_timedwait"); return r(c, m, t); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { if(insim()) return cond_wait(c, m, true); static int (*r)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*); if(!r) r = (decltype(r))dlsym(RTLD_NEXT, "pthread_cond_clockwait"); return r(c, m, k, t); }
int pthread_cond_signal(pthread_cond_t* c) __THROWNL { if(insim()) { hb_release(c); wake(c, false); sim::yield(); return 0; } static int (*r)(pthread_cond_t*); if(!r) r = (decltype(r))dlsym(RTLD_NEXT, "pthread_cond_signal"); return r(c); }
int pthread_cond_broadcast(pthread_cond_t* c) __THROWNL { if(insim()) { hb_release(c); wake(c, true); sim::yield(); return 0; } static int (*r)(pthread_cond_t*); if(!r) r = (decltype(r))dlsym(RTLD_NEXT, "pthread_cond_broadcast"); return r(c); }
int pthread_once(pthread_once_t* o, void (*f)(void)) {
  // states: 0 new, 1 running, 2 done
  volatile int* s = (volatile int*)o;
  for(;;) {
    if(insim()) sim::yield();
    if(*s == 2) { if(insim()) hb_acquire(o); return 0; }
    if(*s == 0) { *s = 1; try { f(); } catch(...) { *s = 0; if(insim()) wake(o); throw; } *s = 2; if(insim()) { hb_release(o); wake(o); } return 0; }
    if(!insim()) abort();
    block_on(o);
  }
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) __THROWNL {
  if(!real_pthread_create) init_real();
  if(insim()) { int r = spawn_thread(nullptr, f, arg, t); sim::yield(); return r; }
  return real_pthread_create(t, a, f, arg);
}
int pthread_join(pthread_t t, void** ret) {
  if(!real_pthread_join) init_real();
  if(insim()) { for(int i = 0; i < g_nth; ++i) if(pthread_equal(g_th[i].pt, t) && i) { while(g_th[i].st != T_DONE) block_on(&g_th[i]); hb_acquire(&g_th[i]); if(ret) *ret = nullptr; return 0; } }
  return real_pthread_join(t, ret);
}
int sched_yield() __THROW { if(insim()) { g_left = 1; if(g_pre > 1) { settle(); g_pre = 1; arm(); } sim::yield(); return 0; } return (int)syscall(SYS_sched_yield); }

// ------------------------------------------------------------------ clocks, identity
time_t time(time_t* p) __THROW { if(!g_in_run) { struct timespec ts; syscall(SYS_clock_gettime, 0, &ts); if(p) *p = ts.tv_sec; return ts.tv_sec; } sim::yield(); time_t t = S->env.t_sec; if(p) *p = t; return t; }
int clock_gettime(clockid_t c, struct timespec* ts) __THROW { if(!g_in_run || g_rt_depth) return (int)syscall(SYS_clock_gettime, c, ts); sim::yield(); S->env.t_nsec += 100; if(S->env.t_nsec >= 1000000000) { S->env.t_nsec -= 1000000000; S->env.t_sec++; } ts->tv_sec = c == CLOCK_REALTIME ? S->env.t_sec : S->env.t_sec - 1499000000; ts->tv_nsec = S->env.t_nsec; return 0; }
int gettimeofday(struct timeval* tv, void*) __THROW { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
int nanosleep(const struct timespec* a, struct timespec*) { if(!g_in_run) return (int)syscall(SYS_nanosleep, a, nullptr); S->env.t_sec += a->tv_sec; S->env.t_nsec += a->tv_nsec; while(S->env.t_nsec >= 1000000000) { S->env.t_nsec -= 1000000000; S->env.t_sec++; } if(insim()) sched_yield(); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec* a, struct timespec* r) { return nanosleep(a, r); }
int usleep(useconds_t u) { struct timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
unsigned sleep(unsigned s) { struct timespec t{(time_t)s, 0}; nanosleep(&t, nullptr); return 0; }
pid_t getpid() __THROW { if(!g_in_run) return (pid_t)syscall(SYS_getpid); sim::yield(); return S->env.pid; }
long gethostid() { if(!g_in_run) return 7; sim::yield(); return S->env.hostid; }
ssize_t getrandom(void* b, size_t n, unsigned) { if(!g_in_run) return syscall(SYS_getrandom, b, n, 0); unsigned char* c = (unsigned char*)b; for(size_t i = 0; i < n; ++i) c[i] = (unsigned char)choose(256); return (ssize_t)n; }

// ------------------------------------------------------------------ files
static int open_impl(int dfd, const char* p, int fl, mode_t m) {
  bool wr = (fl & O_ACCMODE) != O_RDONLY;
  if(g_in_run && !g_rt_depth) { if(insim()) sim::yield(); if(open_fault(p, wr)) return -1; if(g_disk.armed && g_disk.crashed && wr && under_root(p)) return (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY); }
  int fd = (int)syscall(SYS_openat, dfd, p, fl, m);
  if(fd >= 0 && fd < MAXFD) g_fd[fd] = Fd{false, false};
  if(fd >= 0 && g_in_run && !g_rt_depth && under_root(p)) track(fd, wr);
  return fd;
}
int open(const char* p, int fl, ...) { mode_t m = 0; if(fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } return open_impl(AT_FDCWD, p, fl, m); }
int open64(const char* p, int fl, ...) { mode_t m = 0; if(fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } return open_impl(AT_FDCWD, p, fl, m); }
int openat(int d, const char* p, int fl, ...) { mode_t m = 0; if(fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } return open_impl(d, p, fl, m); }
static FILE* fopen_impl(const char* p, const char* mode) {
  int fl = 0; bool plus = strchr(mode, '+');
  if(mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY; else if(mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  if(strchr(mode, 'x')) fl |= O_EXCL;
  int fd = open_impl(AT_FDCWD, p, fl | O_CLOEXEC, 0666);
  if(fd < 0) return nullptr;
  return fdopen(fd, mode);
}
FILE* fopen(const char* p, const char* m) { return fopen_impl(p, m); }
FILE* fopen64(const char* p, const char* m) { return fopen_impl(p, m); }
ssize_t write(int fd, const void* b, size_t n) {
  if(!tracked(fd)) return syscall(SYS_write, fd, b, n);
  if(insim()) sim::yield();
  return do_write(fd, b, n, [fd](const void* q, size_t k) { return syscall(SYS_write, fd, q, k); });
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if(!tracked(fd)) return syscall(SYS_writev, fd, v, c);
  std::string s; for(int i = 0; i < c; ++i) s.append((const char*)v[i].iov_base, v[i].iov_len);
  return write(fd, s.data(), s.size());
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { if(!tracked(fd)) return syscall(SYS_pwrite64, fd, b, n, o); return do_write(fd, b, n, [fd, o](const void* q, size_t k) { return syscall(SYS_pwrite64, fd, q, k, o); }); }
ssize_t read(int fd, void* b, size_t n) {
  if(!tracked(fd)) return syscall(SYS_read, fd, b, n);
  if(insim()) sim::yield();
  Disk& d = g_disk;
  if(d.p_eintr_read > 0 && chance(d.p_eintr_read)) { fault("read-eintr"); errno = EINTR; return -1; }
  size_t len = n;
  if(d.p_short_read > 0 && n > 1 && chance(d.p_short_read)) { len = 1 + choose((uint32_t)(n > 4096 ? 4096 : n - 1)); if(len > n) len = n; fault("short-read"); }
  if(d.fail_read_at >= 0) {
    int64_t room = d.fail_read_at - d.readn;
    if(room <= 0) { d.read_failed = true; fault("read-error"); errno = d.fail_read_errno; return -1; }
    if((int64_t)len > room) len = (size_t)room;
  }
  long r = syscall(SYS_read, fd, b, len); if(r > 0) d.readn += r; return r;
}
ssize_t readv(int fd, const struct iovec* v, int c) { if(!tracked(fd)) return syscall(SYS_readv, fd, v, c); ssize_t t = 0; for(int i = 0; i < c; ++i) { ssize_t r = read(fd, v[i].iov_base, v[i].iov_len); if(r < 0) return t ? t : r; t += r; if((size_t)r < v[i].iov_len) break; } return t; }
static bool close_fault(int fd) { if(tracked(fd) && g_fd[fd].wr && g_disk.fail_close && !g_disk.close_failed) { g_disk.close_failed = true; fault("close-error"); return true; } return false; }
int fclose(FILE* f) { static int (*r)(FILE*); if(!r) r = (decltype(r))dlsym(RTLD_NEXT, "fclose"); int fd = fileno(f); bool bad = close_fault(fd); if(fd >= 0 && fd < MAXFD) g_fd[fd].tracked = false; int x = r(f); if(bad) { errno = EIO; return EOF; } return x; }
int close(int fd) { bool bad = close_fault(fd); if(fd >= 0 && fd < MAXFD) g_fd[fd].tracked = false; int x = (int)syscall(SYS_close, fd); if(bad) { errno = EIO; return -1; } return x; }
static bool frozen(const char* p) { return g_in_run && !g_rt_depth && g_disk.armed && g_disk.crashed && under_root(p); }
int rename(const char* a, const char* b) __THROW { if(frozen(a)) return 0; return (int)syscall(SYS_rename, a, b); }
int unlink(const char* a) __THROW { if(frozen(a)) return 0; return (int)syscall(SYS_unlink, a); }
int remove(const char* a) __THROW { if(frozen(a)) return 0; int r = (int)syscall(SYS_unlink, a); if(r && errno == EISDIR) r = (int)syscall(SYS_rmdir, a); return r; }
} // extern "C"

// ------------------------------------------------------------------ operator new/delete
void* operator new(size_t n) { return do_new(n); }
void* operator new[](size_t n) { return do_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return do_new(n); } catch(...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return do_new(n); } catch(...) { return nullptr; } }
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, size_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t) noexcept { do_delete(p); }
namespace std { unsigned int random_device::_M_getval() { return sim::u32(); } }
