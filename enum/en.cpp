#include "en.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unordered_set>
#include <unordered_map>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define EN_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define EN_ASAN 1
#endif
#ifdef EN_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#endif
namespace en {
#define MAXD 4096
struct Shared { int n; short c[MAXD], of[MAXD]; const char* l[MAXD]; char msg[4000]; bool failed; long long execs, steps, states, skipped, cuts; bool capped; char sample[3000]; };
static Shared* S; // of this worker
struct Skip {};
struct Fail {};
static std::vector<short> path; static size_t depth; static int shard, nshards, sdepth; static bool in_shard; static bool verb; static std::string out;
static std::unordered_set<uint64_t> seen; static bool replaying;
static long live, mark; static volatile int quiet;
bool verbose() { return verb; }
long argi(const char* n, long d) { const char* s = getenv(n); return s ? atol(s) : d; }
bool thorough() { const char* t = getenv("TIER"); return t && !strcmp(t, "thorough"); }
void step() { S->steps++; }
void state(uint64_t h) { quiet++; if (seen.size() < 4000000 && seen.insert(h).second) S->states++; quiet--; }
static uint64_t prefix; static size_t replay_len; static std::unordered_map<uint64_t, int> best; struct Cut {};
static void shard_point() { if (in_shard || replaying) return; in_shard = true; if ((int)(prefix % (uint64_t)nshards) != shard) throw Skip(); }
void cut(uint64_t h, int rem) {
  state(h);
  if (!in_shard || replaying || depth < replay_len || best.size() > 8000000) return;
  quiet++; auto r = best.emplace(h, rem); quiet--;
  if (r.second) return;
  if (r.first->second >= rem) throw Cut();
  r.first->second = rem;
}
int ch(int n, const char* label) {
  if (n <= 0) { fprintf(stderr, "choice among %d\n", n); _exit(3); }
  int v = 0;
  if (depth < path.size()) v = path[depth]; else { quiet++; path.push_back(0); quiet--; }
  if (v >= n) { fprintf(stderr, "replay mismatch\n"); _exit(3); }
  if (depth >= MAXD) { fprintf(stderr, "too deep\n"); _exit(3); }
  S->c[depth] = (short)v; S->of[depth] = (short)n; S->l[depth] = label; depth++; S->n = (int)depth;
  if (verb && label) printf("  choice %s: %d of %d\n", label, v, n);
  if ((int)depth <= sdepth) { prefix = mix(prefix, (uint64_t)v); if ((int)depth == sdepth) shard_point(); }
  return v;
}
static void vsay(const char* fmt, va_list a) { char b[2000]; vsnprintf(b, sizeof b, fmt, a); quiet++; if (out.size() < 2500) { out += b; out += "; "; } quiet--; if (verb) printf("  %s\n", b); }
void say(const char* fmt, ...) { if (!verb && S->execs % 997) return; va_list a; va_start(a, fmt); vsay(fmt, a); va_end(a); }
void fail(const char* fmt, ...) { va_list a; va_start(a, fmt); vsnprintf(S->msg, sizeof S->msg, fmt, a); va_end(a); S->failed = true; throw Fail(); }
void skip() { throw Skip(); }
#ifdef EN_ASAN
static void mh(const volatile void*, size_t) { if (!quiet) live++; }
static void fh(const volatile void* p) { if (!quiet && p) live--; }
#endif
void live_mark() { mark = live; }
long live_since_mark() {
#ifdef EN_ASAN
  return live - mark;
#else
  return 0;
#endif
}
static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void worker(void (*one)(), void (*init)(), double until) {
#ifdef EN_ASAN
  __sanitizer_install_malloc_and_free_hooks(mh, fh);
#endif
  if (init) init();
  path.clear();
  for (;;) {
    depth = 0; S->n = 0; prefix = 7; in_shard = replaying; quiet++; out.clear(); quiet--;
    bool skipped = false; replay_len = path.size();
    try { one(); shard_point(); } catch (Skip&) { skipped = true; } catch (Cut&) { S->cuts++; skipped = true; S->skipped--; } catch (Fail&) { return; }
    if (skipped) { if (in_shard && (int)(prefix % (uint64_t)nshards) == shard) S->skipped++; } else { S->execs++; if (out.size() && S->execs < 20000) { strncpy(S->sample, out.c_str(), sizeof S->sample - 1); } }
    if (replaying) return;
    quiet++;
    path.resize(depth);
    while (!path.empty() && path.back() + 1 >= S->of[path.size() - 1]) path.pop_back();
    if (path.empty()) { quiet--; return; }
    path.back()++;
    quiet--;
    if ((S->execs & 63) == 0 && wall() > until) { S->capped = true; return; }
  }
}
static std::string choices(Shared* s) { std::string r; for (int i = 0; i < s->n; i++) { if (i) r += ","; r += std::to_string(s->c[i]); } return r; }
int run(int argc, char** argv, void (*one)(), void (*init)()) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  double tl = getenv("TIME_LIMIT") ? atof(getenv("TIME_LIMIT")) : 1e9, t0 = wall();
  nshards = (int)argi("EN_SHARDS", 4); sdepth = (int)argi("EN_SPLIT", 5);
  for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--replay") && i + 1 < argc) {
    for (char* p = strtok(argv[++i], ","); p; p = strtok(nullptr, ",")) path.push_back((short)atoi(p));
    replaying = verb = true;
  }
  S = (Shared*)mmap(nullptr, sizeof(Shared) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Shared* base = S;
  if (replaying) {
    auto save = path; depth = 0; in_shard = true; sdepth = 0;
    if (init) init();
    try { path = save; one(); } catch (Skip&) { printf("skipped\n"); } catch (Fail&) { printf("VIOLATION: %s\n", S->msg); return 1; }
    printf("no violation\n"); return 0;
  }
  std::vector<pid_t> pid;
  for (int w = 0; w < nshards; w++) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) { S = base + w; shard = w; worker(one, init, t0 + tl); fflush(stdout); _exit(0); }
    pid.push_back(p);
  }
  bool bad = false; Shared tot; memset(&tot, 0, sizeof tot); int left = nshards; int rc = 0;
  while (left) {
    int st; pid_t p = wait(&st); if (p < 0) break;
    int w = -1; for (int i = 0; i < nshards; i++) if (pid[i] == p) w = i;
    if (w < 0) continue;
    left--;
    Shared* s = base + w;
    std::string why;
    if (s->failed) why = s->msg;
    else if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) why = std::string("the code under test crashes with signal ") + strsignal(WTERMSIG(st));
    else if (WIFEXITED(st) && (WEXITSTATUS(st) == 1 || WEXITSTATUS(st) == 66)) why = "memory error or error exit of the code under test (see the log)";
    else if (WIFSIGNALED(st) || WEXITSTATUS(st)) rc = 2;
    if (!why.empty() && !bad) {
      bad = true;
      printf("VIOLATION: %s [choices %s]\n", why.c_str(), choices(s).c_str());
      for (int i = 0; i < s->n; i++) if (s->l[i]) printf("  %s = %d of %d\n", s->l[i], s->c[i], s->of[i]);
      for (int i = 0; i < nshards; i++) if (pid[i] != p) kill(pid[i], SIGKILL);
    }
    tot.execs += s->execs; tot.steps += s->steps; tot.states += s->states; tot.skipped += s->skipped; tot.cuts += s->cuts; tot.capped |= s->capped; if (s->sample[0]) memcpy(tot.sample, s->sample, sizeof tot.sample);
  }
  std::string e; for (char* c = tot.sample; *c; c++) { if (*c == '"' || *c == '\\') e += '\\'; if ((unsigned char)*c >= 32) e += *c; }
  printf("STATS {\"executions\": %lld, \"states\": %lld, \"transitions\": %lld, \"outside_space\": %lld, \"pruned\": %lld, \"capped\": %s, \"wall_s\": %.2f, \"sample\": \"%s\"}\n", tot.execs, tot.states, tot.steps, tot.skipped, tot.cuts, tot.capped ? "true" : "false", wall() - t0, e.c_str());
  return bad ? 1 : rc;
}
}
