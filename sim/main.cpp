// Simulation driver: seeded search, minimisation and replay.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <map>
#include <set>
#include <unordered_set>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using namespace sim;

static double wall() { struct timespec t; syscall(SYS_clock_gettime, 1, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static const Scenario* g_scn; static int g_cpu = 60; static uint64_t g_deflimit = 2000000000ull;
struct Result { int status = 0; std::string cls, msg, trace; uint64_t hash = 0; std::vector<uint32_t> choices; };

static void exec_run(uint64_t seed, const std::vector<uint32_t>* rep, bool verbose) {
  S->status = ST_RUNNING; S->cls[0] = S->msg[0] = 0; S->pos = 0; S->loghash = 1469598103934665603ull; S->inter = S->dist = 0; S->nlog = S->steps = S->child_steps = S->nswitch = S->npreempt = S->nfork = 0;
  S->trivial = 0; S->ctx[0] = S->fcls[0] = 0; S->verbose = verbose; S->tracelen = 0; S->trace[0] = 0; S->scratch_used = 0; S->used_scratch = 0; S->default_limit = g_deflimit; memset(S->faults, 0, sizeof S->faults); memset(S->probes, 0, sizeof S->probes);
  S->replay = rep != nullptr; S->nreplay = 0; S->prng = seed;
  if(rep) { S->nreplay = std::min<size_t>(rep->size(), MAX_CHOICES); for(uint32_t i = 0; i < S->nreplay; ++i) S->replay_choices[i] = (*rep)[i]; }
  fflush(nullptr);
  pid_t p = fork();
  if(p < 0) { perror("fork"); exit(2); }
  if(p == 0) {
    setpgid(0, 0);
    struct rlimit rl{(rlim_t)g_cpu, (rlim_t)g_cpu + 5}; setrlimit(RLIMIT_CPU, &rl); struct rlimit as{48ull << 30, 48ull << 30}; setrlimit(RLIMIT_AS, &as); struct rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
    alarm(g_cpu * 4);
    if(!verbose) { int n = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); syscall(SYS_close, n); }
    enter_run();
    try { g_scn->run(); } catch(std::exception const& e) { fail("uncaught-exception", "unexpected exception: %s", e.what()); } catch(...) { fail("uncaught-exception", "unexpected exception"); }
    leave_run_ok();
  }
  int st; while(waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  setpgid(p, p); kill(-p, SIGKILL); // forked processes of a run that died
  if(WIFSIGNALED(st)) {
    int sg = WTERMSIG(st);
    S->status = ST_FAIL; 
    if(sg == SIGXCPU || sg == SIGALRM || sg == SIGKILL) { strcpy(S->cls, "hang"); snprintf(S->msg, sizeof S->msg, "the run did not finish within %d s (signal %d)%s%s", g_cpu, sg, S->ctx[0] ? ": " : "", S->ctx); S->loghash = 0x4a4e47; }
    else { strcpy(S->cls, "crash"); snprintf(S->msg, sizeof S->msg, "the process died with signal %d (%s)%s%s", sg, strsignal(sg), S->ctx[0] ? ": " : "", S->ctx); S->loghash = mix(S->loghash, sg); }
  } else if(S->status == ST_RUNNING) {
    S->status = ST_FAIL; strcpy(S->cls, "exit"); snprintf(S->msg, sizeof S->msg, "the process ended itself with exit status %d%s%s", WEXITSTATUS(st), S->ctx[0] ? ": " : "", S->ctx); S->loghash = mix(S->loghash, 0xe817 + WEXITSTATUS(st));
  }
  if(WIFSIGNALED(st) && S->fcls[0]) strcpy(S->cls, S->fcls);
  if(S->used_scratch) wipe(S->scratchdir);
}
static Result take() { Result r; r.status = S->status; r.cls = S->cls; r.msg = S->msg; r.hash = mix(S->loghash, S->inter); r.choices.assign(S->choices, S->choices + S->pos); r.trace.assign(S->trace, S->tracelen); return r; }
static Result run_choices(const std::vector<uint32_t>& c) { exec_run(0, &c, false); return take(); }
static void strip(std::vector<uint32_t>& c) { while(!c.empty() && c.back() == 0) c.pop_back(); }

static Result minimise(Result best, double budget) {
  double end = wall() + budget; std::string cls = best.cls;
  std::vector<uint32_t> cur = best.choices; strip(cur);
  auto attempt = [&](std::vector<uint32_t> c) { strip(c); if(c == cur) return false; Result r = run_choices(c); if(r.status == ST_FAIL && r.cls == cls) { std::vector<uint32_t> n = r.choices; strip(n); if(n.size() < cur.size() || (n.size() == cur.size() && n < cur)) { cur = n; best = r; return true; } if(c.size() < cur.size() || (c.size() == cur.size() && c < cur)) { cur = c; best = r; return true; } } return false; };
  bool progress = true; int rounds = 0;
  while(progress && wall() < end && rounds++ < 12) {
    progress = false;
    for(size_t k = cur.size() / 2; k >= 1 && wall() < end; k /= 2) { // truncate
      while(cur.size() > k) { std::vector<uint32_t> c(cur.begin(), cur.end() - k); if(!attempt(c)) break; progress = true; }
    }
    for(size_t k = std::max<size_t>(1, cur.size() / 4); k >= 1 && wall() < end; k /= 2) { // delete / zero blocks
      for(size_t i = 0; i + k <= cur.size() && wall() < end;) {
        std::vector<uint32_t> c = cur; c.erase(c.begin() + i, c.begin() + i + k); if(attempt(c)) { progress = true; continue; }
        c = cur; bool nz = false; for(size_t j = i; j < i + k; ++j) { nz |= c[j] != 0; c[j] = 0; } if(nz && attempt(c)) { progress = true; }
        i += k;
      }
      if(k == 1) break;
    }
    for(size_t i = 0; i < cur.size() && wall() < end; ++i) { // lower values
      while(i < cur.size() && cur[i] > 0 && wall() < end) { std::vector<uint32_t> c = cur; c[i] /= 2; if(attempt(c)) { progress = true; continue; } c = cur; c[i] -= 1; if(attempt(c)) { progress = true; continue; } break; }
    }
  }
  return best;
}
static std::string jstr(const std::string& s) { std::string o = "\""; for(unsigned char c : s) { if(c == '"' || c == '\\') { o += '\\'; o += c; } else if(c == '\n') o += "\\n"; else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static void write_result(const char* path, const Result& r, uint64_t seed, uint64_t run, bool minimised) {
  FILE* f = fopen(path, "w"); if(!f) { perror(path); exit(2); }
  fprintf(f, "{\"scenario\": %s, \"class\": %s, \"message\": %s, \"hash\": \"%016llx\", \"seed\": %llu, \"run\": %llu, \"minimised\": %s,\n \"choices\": [", jstr(g_scn->name).c_str(), jstr(r.cls).c_str(), jstr(r.msg).c_str(), (unsigned long long)r.hash, (unsigned long long)seed, (unsigned long long)run, minimised ? "true" : "false");
  std::vector<uint32_t> c = r.choices; strip(c);
  for(size_t i = 0; i < c.size(); ++i) fprintf(f, "%s%u", i ? "," : "", c[i]);
  fprintf(f, "],\n \"trace\": [");
  size_t a = 0; bool first = true; while(a < r.trace.size()) { size_t b = r.trace.find('\n', a); if(b == std::string::npos) b = r.trace.size(); fprintf(f, "%s%s", first ? "" : ",\n  ", jstr(r.trace.substr(a, b - a)).c_str()); first = false; a = b + 1; }
  fprintf(f, "]}\n"); fclose(f);
}
static std::vector<uint32_t> read_choices(const char* path) {
  FILE* f = fopen(path, "r"); if(!f) { perror(path); exit(2); } std::string s; char b[65536]; size_t n; while((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f);
  size_t p = s.find("\"choices\""); p = s.find('[', p); size_t e = s.find(']', p); std::vector<uint32_t> c; const char* q = s.c_str() + p + 1; const char* end = s.c_str() + e;
  while(q < end) { char* nx; unsigned long v = strtoul(q, &nx, 10); if(nx == q) break; c.push_back((uint32_t)v); q = nx; while(q < end && (*q == ',' || *q == ' ' || *q == '\n')) ++q; }
  return c;
}
int main(int argc, char** argv) {
  if(!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); int old = personality(0xffffffff); if(old != -1 && !(old & ADDR_NO_RANDOMIZE) && personality(old | ADDR_NO_RANDOMIZE) != -1) { execv("/proc/self/exe", argv); } }
  init_real(); arena_init();
  setenv("LC_ALL", "C", 1);
  std::map<std::string, std::string> a; for(int i = 1; i < argc; ++i) { std::string s = argv[i]; if(s.rfind("--", 0) == 0) { size_t e = s.find('='); if(e == std::string::npos) a[s.substr(2)] = "1"; else a[s.substr(2, e - 2)] = s.substr(e + 1); } }
  auto get = [&](const char* k, const char* d) { return a.count(k) ? a[k] : std::string(d); };
  if(a.count("list")) { for(auto& s : scenarios()) printf("%s\n", s.name); return 0; }
  std::string sn = get("scenario", ""); for(auto& s : scenarios()) if(sn == s.name) g_scn = &s;
  if(!g_scn) { fprintf(stderr, "no scenario %s\n", sn.c_str()); return 2; }
  g_cpu = atoi(get("cpu", "60").c_str());
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if(S == MAP_FAILED) { perror("mmap"); return 2; }
  snprintf(S->scratchdir, sizeof S->scratchdir, "%s/d", get("scratch", "/tmp").c_str());
  if(g_scn->setup) { env_default(); g_scn->setup(); }
  if(a.count("replay")) {
    std::vector<uint32_t> c = read_choices(a["replay"].c_str());
    exec_run(0, &c, a.count("verbose"));
    Result r = take();
    printf("{\"status\": %d, \"class\": %s, \"message\": %s, \"hash\": \"%016llx\"}\n", r.status, jstr(r.cls).c_str(), jstr(r.msg).c_str(), (unsigned long long)r.hash);
    if(a.count("out")) write_result(a["out"].c_str(), r, 0, 0, true);
    return r.status == ST_OK ? 0 : r.status == ST_FAIL ? 1 : 2;
  }
  uint64_t seed = strtoull(get("seed", "1").c_str(), nullptr, 0), first = strtoull(get("first", "0").c_str(), nullptr, 0), step = strtoull(get("step", "1").c_str(), nullptr, 0), maxruns = strtoull(get("runs", "1000000000").c_str(), nullptr, 0);
  double T = atof(get("time", "10").c_str()); int audit = atoi(get("audit", "64").c_str());
  std::string out = get("out", "/tmp/sim");
  uint64_t scnh = hash_bytes(g_scn->name, strlen(g_scn->name));
  double t0 = wall(); uint64_t runs = 0, nontrivial = 0, steps = 0, switches = 0, preempts = 0, forks = 0, audits = 0, nlog = 0; std::map<std::string, uint64_t> faults, probes; std::unordered_set<uint64_t> dist; double vtime = 0; int rc = 0;
  std::vector<std::string> samples; uint64_t found = 0;
  std::vector<std::pair<std::string, std::string>> known; std::map<std::string, uint64_t> knownhits;
  if(a.count("known")) if(FILE* kf = fopen((a["known"] + ".tsv").c_str(), "r")) { char b[2048]; while(fgets(b, sizeof b, kf)) { std::string l = b; while(!l.empty() && l.back() == '\n') l.pop_back(); size_t t = l.find('\t'); if(t != std::string::npos) known.push_back({l.substr(0, t), l.substr(t + 1)}); } fclose(kf); }
  for(uint64_t i = first; runs < maxruns && wall() - t0 < T; i += step) {
    uint64_t s = mix(mix(seed * 0x2545F4914F6CDD1Dull + 1, i), scnh);
    exec_run(s, nullptr, a.count("verbose"));
    runs++; steps += S->steps + S->child_steps; switches += S->nswitch; preempts += S->npreempt; forks += S->nfork; nlog += S->nlog; vtime += std::llabs((long long)(S->env.t_sec - S->t0));
    for(auto& c : S->faults) if(c.name[0]) faults[c.name] += c.n; for(auto& c : S->probes) if(c.name[0]) probes[c.name] += c.n;
    if(S->status == ST_ERROR) { fprintf(stderr, "internal error in run %llu: %s\n", (unsigned long long)i, S->msg); rc = 2; break; }
    uint64_t dh = mix(mix(S->loghash, S->inter), S->dist);
    if(!S->trivial) { nontrivial++; if(dist.size() < 2000000) dist.insert(dh); }
    if(samples.size() < 2 && S->tracelen) { samples.push_back("run " + std::to_string(i) + ": " + std::string(S->trace, std::min<size_t>(S->tracelen, 700))); }
    if(S->status == ST_FAIL) {
      Result r = take();
      { bool kn = false; for(auto& k : known) if(k.first == r.cls && r.msg.find(k.second) != std::string::npos) { knownhits[k.first + ":" + k.second]++; kn = true; break; } if(kn) continue; }
      if(a.count("survey")) { static std::map<std::string, int> seen; if(++seen[r.cls + ": " + r.msg] == 1) { printf("run %llu %s: %s\n", (unsigned long long)i, r.cls.c_str(), r.msg.c_str()); fflush(stdout); } continue; }
      found++;
      Result r2 = run_choices(r.choices);
      if(r2.status != ST_FAIL || r2.cls != r.cls) { fprintf(stderr, "violation in run %llu does not replay: %s (%s) vs status %d %s (%s)\n", (unsigned long long)i, r.cls.c_str(), r.msg.c_str(), r2.status, r2.cls.c_str(), r2.msg.c_str()); rc = 2; write_result((out + ".noreplay.json").c_str(), r, seed, i, false); break; }
      Result m = minimise(r2, atof(get("mintime", "20").c_str()));
      write_result((out + ".violation.json").c_str(), m, seed, i, true);
      rc = 1; break;
    }
    if(audit && runs % audit == 0) { // determinism audit: same seed twice, and replay of the recorded choices
      Result r = take(); exec_run(s, nullptr, false); Result r2 = take(); Result r3 = run_choices(r.choices); audits++;
      if(r.hash != r2.hash || r.status != r2.status || r3.hash != r.hash || r3.status != r.status) { fprintf(stderr, "run %llu is not deterministic (%016llx %016llx %016llx)\n", (unsigned long long)i, (unsigned long long)r.hash, (unsigned long long)r2.hash, (unsigned long long)r3.hash); rc = 2; break; }
    }
  }
  FILE* f = fopen((out + ".stats.json").c_str(), "w"); if(!f) { perror("stats"); return 2; }
  fprintf(f, "{\"scenario\": %s, \"runs\": %llu, \"nontrivial\": %llu, \"steps\": %llu, \"switches\": %llu, \"preemptions\": %llu, \"forks\": %llu, \"events\": %llu, \"audits\": %llu, \"wall\": %.3f, \"rc\": %d, \"violations\": %llu, \"faults\": {", jstr(g_scn->name).c_str(), (unsigned long long)runs, (unsigned long long)nontrivial, (unsigned long long)steps, (unsigned long long)switches, (unsigned long long)preempts, (unsigned long long)forks, (unsigned long long)nlog, (unsigned long long)audits, wall() - t0, rc, (unsigned long long)found);
  bool fi = true; for(auto& k : faults) { fprintf(f, "%s%s: %llu", fi ? "" : ", ", jstr(k.first).c_str(), (unsigned long long)k.second); fi = false; }
  fprintf(f, "}, \"probes\": {"); fi = true; for(auto& k : probes) { fprintf(f, "%s%s: %llu", fi ? "" : ", ", jstr(k.first).c_str(), (unsigned long long)k.second); fi = false; }
  fprintf(f, "}, \"simtime\": %.1f, \"known\": {", vtime); fi = true; for(auto& k : knownhits) { fprintf(f, "%s%s: %llu", fi ? "" : ", ", jstr(k.first).c_str(), (unsigned long long)k.second); fi = false; }
  fprintf(f, "}, \"samples\": ["); fi = true; for(auto& s : samples) { fprintf(f, "%s%s", fi ? "" : ", ", jstr(s).c_str()); fi = false; }
  fprintf(f, "]}\n"); fclose(f);
  FILE* h = fopen((out + ".hashes").c_str(), "w"); for(uint64_t x : dist) fwrite(&x, 8, 1, h); fclose(h);
  return rc;
}
