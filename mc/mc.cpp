// mc: deviation-bounded systematic exploration of the real code under a controlled scheduler.
// One OS thread; every thread of the code under test is a coroutine. See DESIGN.md.
#include "mc.h"
#include <algorithm>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <deque>
#include <map>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

#define MAXT 40
#define MAXP 12
#define ARENA_BASE 0x200000000000ULL
#define ARENA_PER (8ULL << 20)
#define ARENA_SIZE (ARENA_PER * MAXT)
#define STACK_BASE 0x300000000000ULL

mc_config mc_cfg = {.name = "scenario", .bound = 1, .start_time = 1000000000000000000LL, .tick = 0, .cores = 4, .time_deviation = true, .max_jump = 0, .clock_read_points = false,
    .spurious = false, .short_io = false, .eintr_io = false, .udp_loss = false, .race_points = true, .hb_cache = true, .create_switch = false, .alloc_fail = false,
    .deadlock_ok = false, .quiet_until = 0, .kill_proc = 0, .max_steps = 200000, .max_time = 4000000000000LL, .fair = 3000, .stack_kb = 256, .net_latency = 0, .slow_proc = 0, .slow_latency = 3000000, .lat_dev = 0, .sched_points = true, .skew = {0}, .step = {0}, .step_at = {0}};
bool mc_keep_output = false;
bool mc_verbose = false;

static void fatal(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  fprintf(stderr, "MC-INTERNAL-ERROR: ");
  vfprintf(stderr, fmt, ap);
  fprintf(stderr, "\n");
  fflush(stderr);
  fflush(stdout);
  _exit(2);
}

// ------------------------------------------------------------------ hashing
static inline uint64_t mix64(uint64_t x) {
  x ^= x >> 32; x *= 0xd6e8feb86659fd93ULL; x ^= x >> 32; x *= 0xd6e8feb86659fd93ULL; x ^= x >> 32;
  return x;
}
static inline uint64_t hcomb(uint64_t a, uint64_t b) { return mix64(a * 0x9E3779B97F4A7C15ULL + b + 0x632BE59BD9B4E019ULL); }
extern "C" uint64_t mc_hash(uint64_t a, uint64_t b) { return hcomb(a, b); }

struct VC { uint32_t c[MAXT]; };
static inline void vc_join(VC& a, const VC& b, int n) { for (int i = 0; i < n; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

// ------------------------------------------------------------------ objects
struct Obj { uint64_t hw = 0, hr = 0; VC vc; };
// Sync object table: address -> Obj, cleared per execution
struct ObjTab {
  std::vector<uint64_t> keys; std::vector<uint32_t> gen; std::vector<int> idx; std::vector<Obj*> pool; int used = 0; uint32_t g = 1;
  ObjTab() { keys.resize(1 << 12); gen.resize(1 << 12); idx.resize(1 << 12); }
  void clear() { g++; used = 0; }
  void grow() {
    auto ok = keys; auto og = gen; auto oi = idx; size_t n = keys.size() * 2;
    keys.assign(n, 0); gen.assign(n, 0); idx.assign(n, 0);
    for (size_t i = 0; i < ok.size(); i++) if (og[i] == g) { size_t p = mix64(ok[i]) & (n - 1); while (gen[p] == g) p = (p + 1) & (n - 1); keys[p] = ok[i]; gen[p] = g; idx[p] = oi[i]; }
  }
  Obj& get(uint64_t k) {
    size_t m = keys.size() - 1, p = mix64(k) & m;
    while (gen[p] == g) { if (keys[p] == k) return *pool[idx[p]]; p = (p + 1) & m; }
    if ((size_t)used * 2 > keys.size()) { grow(); return get(k); }
    if ((int)pool.size() <= used) pool.push_back(new Obj);
    Obj* o = pool[used]; o->hw = mix64(k ^ 0xabcdef); o->hr = 0; memset(&o->vc, 0, sizeof o->vc);
    keys[p] = k; gen[p] = g; idx[p] = used++;
    return *o;
  }
};
static ObjTab objs;

enum OpKind { OP_RUN, OP_LOCK, OP_COND, OP_JOIN, OP_SLEEP, OP_READ, OP_ACCEPT, OP_FLAG, OP_POLL, OP_WRITE };
static const char* opname[] = {"run", "lock", "cond", "join", "sleep", "read", "accept", "flag", "poll", "write"};

struct Mutex { int owner = -1; int count = 0; int type = 0; };
struct CondS { std::vector<int> waiters; };

struct Endpoint;
struct Thread {
  int id, proc; bool used, finished, detached; void* ret; void* (*fn)(void*); int (*mainfn)(void*); void* arg;
  void* sp; char* stack; size_t stack_size;
  uint64_t h; VC vc;
  int op; uint64_t obj; // pending op
  bool timed; int64_t deadline; bool signalled, timedout;
  uint64_t cond, mutex; int saved; int jt; volatile int* flag; Endpoint* ep; struct pollfd* pfds; int npfds;
  int err; int consecutive; uint64_t blocked_seq;
  std::vector<std::pair<void*, void*>> tls;
  uint64_t bump;
};
static Thread T[MAXT];
static int nT = 0;
static int cur = -1; // running coroutine, -1 = explorer
struct Proc { bool used, exited; int code; int main_tid; std::string name; std::vector<void (*)(void)> atexits; bool exiting; size_t live, live_bytes; std::string out; std::map<int, Endpoint*> fds; int umask; };
static Proc P[MAXP];
static int nP = 0;
static std::unordered_map<uint64_t, Mutex> mutexes;
static std::unordered_map<uint64_t, CondS> conds;
static int64_t now_;
static int64_t steps, total_steps;
static uint64_t env_h;
static uint64_t blocked_counter;
static bool failed; static char fail_msg[4096];
static int end_status;
static jmp_buf crash_jmp; static bool crash_armed = false;
static void* explorer_sp;
static uint64_t outcome_h;
static bool any_outcome;
static uint64_t unique_seq;

// ------------------------------------------------------------------ context switch
extern "C" void mc_swap(void** from, void* to);
asm(R"(
.text
.globl mc_swap
.type mc_swap,@function
mc_swap:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_swap,.-mc_swap
)");

// ------------------------------------------------------------------ image, arena, shadow
static uintptr_t img_text, img_etext, img_data, img_end;
static std::vector<char> snapshot;
extern "C" void mc_register_image(void* text, void* etext, void* data, void* end) {
  img_text = (uintptr_t)text; img_etext = (uintptr_t)etext; img_data = (uintptr_t)data; img_end = (uintptr_t)end;
}
static uint8_t* ashadow; // 1 byte per 8 arena bytes: 0xFF bad, 0 = 8 ok, k = first k ok
struct Cell { uint32_t gen; uint8_t wt, rt, rt2, pad; uint32_t wc, rc, rc2, wpc, rpc, rpc2; };
static Cell* acells; static Cell* dcells; static uint32_t cellgen = 0;
static std::vector<uint8_t> racy; static std::vector<uint32_t> racy_list; static bool new_racy = false;
static int race_pairs = 0;
#define POISON_REDZONE 0xFA
#define POISON_FREED 0xFD

struct Blk { uint64_t magic; uint32_t size; int16_t proc; int16_t state; uint64_t pc; uint64_t seq; };
static_assert(sizeof(Blk) == 32, "");
#define BMAGIC 0x6d63626c6b313233ULL
static std::vector<Blk*> blks; // all blocks of this execution

static void arena_init() {
  void* p = mmap((void*)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)ARENA_BASE) fatal("arena mmap");
  ashadow = (uint8_t*)mmap(0, ARENA_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  acells = (Cell*)mmap(0, ARENA_SIZE / 8 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  size_t dn = (img_end - img_data) / 8 + 2;
  dcells = (Cell*)mmap(0, dn * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (ashadow == MAP_FAILED || acells == MAP_FAILED || dcells == MAP_FAILED) fatal("shadow mmap");
  racy.assign(img_etext - img_text + 16, 0);
  char* st = (char*)mmap((void*)STACK_BASE, (size_t)MAXT << 21, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (st != (char*)STACK_BASE) fatal("stack mmap");
}
static size_t stack_sz;
static void stack_prepare(Thread& t) {
  if (!t.stack) {
    stack_sz = (size_t)mc_cfg.stack_kb << 10;
    if (stack_sz > (1 << 21) - 8192) stack_sz = (1 << 21) - 8192;
    t.stack = (char*)STACK_BASE + ((size_t)t.id << 21) + 4096;
    if (mprotect(t.stack, stack_sz, PROT_READ | PROT_WRITE)) fatal("mprotect stack");
    t.stack_size = stack_sz;
    memset(t.stack, 0xA7, stack_sz);
  }
}
static void stack_clean(Thread& t) { // refill the dirtied part with the pattern
  uint64_t* p = (uint64_t*)t.stack; uint64_t* e = (uint64_t*)(t.stack + t.stack_size);
  // deep frames may leave gaps: scan from the bottom for the first dirty word
  while (p < e && *p == 0xA7A7A7A7A7A7A7A7ULL) p++;
  if (p < e) memset(p, 0xA7, (char*)e - (char*)p);
}

[[noreturn]] static void to_explorer();

static void vfail(const char* fmt, va_list ap) {
  if (failed) return;
  failed = true;
  vsnprintf(fail_msg, sizeof fail_msg, fmt, ap);
}
extern "C" void mc_fail(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); vfail(fmt, ap); va_end(ap);
  if (mc_verbose) printf("[mc %6lld t%d now=%+lld] FAIL: %s\n", (long long)steps, cur, (long long)(now_ - mc_cfg.start_time), fail_msg);
  if (cur >= 0) { end_status = MC_FAILED; to_explorer(); }
}
extern "C" void mc_logf(const char* fmt, ...) {
  if (!mc_verbose) return;
  va_list ap; va_start(ap, fmt);
  printf("[mc %6lld t%d p%d now=%+lld] ", (long long)steps, cur, cur >= 0 ? T[cur].proc : -1, (long long)(now_ - mc_cfg.start_time));
  vprintf(fmt, ap); printf("\n"); va_end(ap);
}

// allocator ---------------------------------------------------------
static std::string symof(uint64_t pc);
static Blk* blk_of(const void* p) {
  uintptr_t u = (uintptr_t)p;
  if (u - ARENA_BASE >= ARENA_SIZE || (u & 15)) return nullptr;
  Blk* b = (Blk*)(u - 48);
  if ((uintptr_t)b < ARENA_BASE || b->magic != BMAGIC) return nullptr;
  return b;
}
static void* arena_alloc(size_t n, bool zero, void* pc) {
  int tid = cur < 0 ? MAXT - 1 : cur;
  Thread& t = T[tid];
  // layout: [Blk 32][redzone 16][payload rounded to 16][redzone 16]
  size_t r = (n + 15) & ~15ULL;
  size_t tot = 48 + r + 16;
  if (t.bump + tot > ARENA_PER) {
    if (cur >= 0) mc_fail("out of memory in the code under test: allocation of %zu bytes (total above %llu MB)", n, ARENA_PER >> 20);
    fatal("arena of thread %d exhausted (alloc %zu)", tid, n);
  }
  uint64_t a = ARENA_BASE + (uint64_t)tid * ARENA_PER + t.bump;
  t.bump += tot;
  Blk* b = (Blk*)a; b->magic = BMAGIC; b->size = (uint32_t)n; b->proc = cur >= 0 ? (int16_t)T[cur].proc : -1; b->state = 1; b->pc = (uint64_t)pc; b->seq = blks.size();
  blks.push_back(b);
  uint8_t* s = ashadow + (a - ARENA_BASE) / 8;
  memset(s, POISON_REDZONE, 6);
  uint8_t* ps = s + 6; size_t full = n / 8;
  memset(ps, 0, full);
  if (n & 7) ps[full] = n & 7;
  size_t have = full + ((n & 7) ? 1 : 0);
  memset(ps + have, POISON_REDZONE, r / 8 - have + 2);
  char* p = (char*)(a + 48);
  memset(p, zero ? 0 : 0xBE, r);
  if (b->proc >= 0) { P[b->proc].live++; P[b->proc].live_bytes += n; }
  return p;
}
static void arena_free(void* p, void* pc) {
  if (!p) return;
  Blk* b = blk_of(p);
  if (!b) { mc_fail("invalid free of %p at %s", p, symof((uint64_t)pc).c_str()); return; }
  if (b->state != 1) { mc_fail("double free of %p (allocated at %s) at %s", p, symof(b->pc).c_str(), symof((uint64_t)pc).c_str()); return; }
  b->state = 2;
  if (b->proc >= 0) { P[b->proc].live--; P[b->proc].live_bytes -= b->size; }
  size_t r = (b->size + 15) & ~15ULL;
  memset(ashadow + ((uintptr_t)p - ARENA_BASE) / 8, POISON_FREED, r / 8);
  memset(p, 0xDD, r);
}
extern "C" void* mc_malloc(size_t n) { return arena_alloc(n, false, __builtin_return_address(0)); }
extern "C" void* mc_calloc(size_t a, size_t b) { return arena_alloc(a * b, true, __builtin_return_address(0)); }
extern "C" void mc_free(void* p) { arena_free(p, __builtin_return_address(0)); }
extern "C" void* mc_realloc(void* p, size_t n) {
  void* pc = __builtin_return_address(0);
  if (!p) return arena_alloc(n, false, pc);
  Blk* b = blk_of(p);
  if (!b || b->state != 1) { mc_fail("invalid realloc of %p at %s", p, symof((uint64_t)pc).c_str()); return nullptr; }
  void* q = arena_alloc(n, false, pc);
  memcpy(q, p, std::min((size_t)b->size, n));
  arena_free(p, pc);
  return q;
}
extern "C" size_t mc_live_allocs(int p) { return P[p].live; }
extern "C" size_t mc_live_bytes(int p) { return P[p].live_bytes; }
extern "C" uint64_t mc_alloc_seq(void) { return blks.size(); }
extern "C" size_t mc_live_sized(int p, uint64_t from, const size_t* sizes, int n, int log) {
  size_t c = 0;
  for (Blk* b : blks) if (b->state == 1 && b->proc == p && b->seq > from) for (int k = 0; k < n; k++) if (b->size == sizes[k]) { c++; if (log) mc_logf("live: %u bytes from %s", b->size, symof(b->pc).c_str()); break; }
  return c;
}
extern "C" void mc_dump_live(int p, int n) {
  for (Blk* b : blks) if (b->state == 1 && b->proc == p && n-- > 0) mc_logf("live: %u bytes from %s", b->size, symof(b->pc).c_str());
}
extern "C" int mc_is_live(const void* p, size_t* size) {
  Blk* b = blk_of(p);
  if (!b || b->state != 1) return 0;
  if (size) *size = b->size;
  return 1;
}
extern "C" int mc_addressable(const void* ptr, size_t n) {
  uintptr_t u = (uintptr_t)ptr;
  if (u - ARENA_BASE >= ARENA_SIZE) return 1;
  for (size_t i = 0; i < n; i++) { uint8_t s = ashadow[(u + i - ARENA_BASE) / 8]; if (s && ((u + i) & 7) >= s) return 0; }
  return 1;
}
extern "C" void* mc_host_alloc(size_t n) { return calloc(1, n); }

// ------------------------------------------------------------------ choice points
struct Choice { int n, c; uint8_t cost_mode; /*0: alternatives cost 1; 1: free*/ uint8_t def; };
static std::vector<Choice> path; // current execution
static size_t depth; static int used_dev; static int cur_bound;
static std::vector<int> replay_choices; static bool replaying = false; static std::vector<int> replay_ns;
struct Cache { // signature -> remaining budget
  std::vector<uint64_t> k; std::vector<uint8_t> v; size_t used = 0;
  Cache() { clear(); }
  void clear() { k.assign(1 << 16, 0); v.assign(1 << 16, 0); used = 0; }
  // returns previous remaining+1, or 0; stores max
  int upd(uint64_t key, int rem) {
    if (!key) key = 1;
    if (used * 10 > k.size() * 6) {
      auto ok = std::move(k); auto ov = std::move(v); k.assign(ok.size() * 2, 0); v.assign(ok.size() * 2, 0);
      for (size_t i = 0; i < ok.size(); i++) if (ok[i]) { size_t p = mix64(ok[i]) & (k.size() - 1); while (k[p]) p = (p + 1) & (k.size() - 1); k[p] = ok[i]; v[p] = ov[i]; }
    }
    size_t p = mix64(key) & (k.size() - 1);
    while (k[p] && k[p] != key) p = (p + 1) & (k.size() - 1);
    if (!k[p]) { k[p] = key; v[p] = (uint8_t)(rem + 1); used++; return 0; }
    int old = v[p]; if (rem + 1 > old) v[p] = (uint8_t)(rem + 1);
    return old;
  }
};
static Cache cache;
static uint64_t st_execs, st_pruned, st_choice_points; static size_t st_max_depth; static uint64_t st_states;
static std::unordered_set<uint64_t> outcomes;
static std::map<std::string, int64_t> notes; static std::map<std::string, int64_t> counters;
extern "C" void mc_note(const char* k, int64_t v) { notes[k] = v; }
extern "C" void mc_count(const char* k) { if (!replaying) counters[k]++; }

static uint64_t signature(uint64_t extra) {
  uint64_t s = env_h + extra * 0x12345678987ULL + hcomb(0x77, (uint64_t)now_) + hcomb(0x99, (uint64_t)(cur + 2));
  for (int i = 0; i < nT; i++) if (T[i].used) s += hcomb((uint64_t)i * 7 + 3, T[i].h + (T[i].finished ? 1 : 0));
  return s;
}
static const char* choice_label;
// n alternatives, alternative 0 is free. Returns the chosen one.
static bool quiet;
extern "C" void mc_quiet(bool on) { quiet = on; }
static int choose(int n, bool free_alt, uint64_t extra, const char* label) {
  if (n <= 1 || ((quiet || now_ < mc_cfg.start_time + mc_cfg.quiet_until) && !free_alt)) return 0;
  st_choice_points++;
  int c;
  if (replaying) {
    size_t d = depth++;
    c = d < replay_choices.size() ? replay_choices[d] : 0;
    if (c >= n) fatal("replay divergence at choice %zu (%s): choice %d of %d", d, label, c, n);
    if (d < replay_ns.size() && replay_ns[d] != n) fatal("replay divergence at choice %zu (%s): %d alternatives, recorded %d", d, label, n, replay_ns[d]);
    if (!free_alt && c) used_dev++;
    if (mc_verbose && c) mc_logf("choice #%zu %s -> %d of %d", d, label, c, n);
    return c;
  }
  if (depth < path.size()) {
    Choice& ch = path[depth++];
    if (ch.n != n) fatal("nondeterminism: choice %zu (%s) has %d alternatives, had %d", depth - 1, label, n, ch.n);
    c = ch.c;
  } else {
    if (mc_cfg.hb_cache) {
      int rem = cur_bound - used_dev;
      int old = cache.upd(signature(extra), rem);
      if (old >= rem + 1) { end_status = MC_PRUNED; if (cur >= 0) to_explorer(); else fatal("prune in setup"); }
    }
    path.push_back({n, 0, (uint8_t)(free_alt ? 1 : 0), 0});
    depth++;
    c = 0;
  }
  if (!free_alt && c) used_dev++;
  return c;
}
static bool next_path() { // backtrack; false when exhausted
  while (!path.empty()) {
    Choice& ch = path.back();
    // deviations used before this point
    int u = 0; for (size_t i = 0; i + 1 < path.size(); i++) if (path[i].c && !path[i].cost_mode) u++;
    int cost = ch.cost_mode ? 0 : 1;
    if (ch.c + 1 < ch.n && u + cost <= cur_bound) { ch.c++; return true; }
    path.pop_back();
  }
  return false;
}

// ------------------------------------------------------------------ happens-before bookkeeping
static inline void hb_rw(Thread& t, uint64_t key, uint64_t kind) {
  Obj& o = objs.get(key);
  t.h = hcomb(hcomb(t.h, kind), hcomb(o.hw, o.hr)); o.hw = t.h; o.hr = 0;
}
static inline void hb_rd(Thread& t, uint64_t key, uint64_t kind) {
  Obj& o = objs.get(key);
  t.h = hcomb(hcomb(t.h, kind), o.hw); o.hr += mix64(t.h);
}
static inline void acq(Thread& t, uint64_t key) { vc_join(t.vc, objs.get(key).vc, nT); }
static inline void rel(Thread& t, uint64_t key) { vc_join(objs.get(key).vc, t.vc, nT); t.vc.c[t.id]++; }
#define TIME_KEY 0x10ULL

// ------------------------------------------------------------------ network
struct Pipe { std::deque<std::pair<int64_t, std::string>> chunks; size_t off = 0; bool wclosed = false; size_t total = 0; int64_t last_at = 0; };
struct Endpoint {
  int kind = 0; // 0 tcp unconnected, 1 listener, 2 connected, 3 udp
  int proc; int port = 0; int peer_port = 0; Pipe *in = nullptr, *out = nullptr; Endpoint* peer = nullptr;
  std::deque<Endpoint*> backlog; int fd = -1; int refs = 0; bool closed = false; bool rd_shut = false, wr_shut = false;
  int64_t rcvtimeo = 0; struct Dgram { int64_t at; int from; std::string data; }; std::deque<Dgram> dgrams; int udp_peer = 0; uint64_t key; bool reset = false; bool nonblock = false;
};
static std::vector<Endpoint*> eps; static std::vector<Pipe*> pipes; static int next_port;
static Endpoint* new_ep(int proc) { Endpoint* e = new Endpoint; e->proc = proc; e->key = 0x50000 + eps.size() * 16; eps.push_back(e); return e; }
extern "C" int mc_listening_port(int proc) { for (Endpoint* e : eps) if (e->proc == proc && e->kind == 1 && !e->closed) return e->port; return 0; }
static Pipe* new_pipe() { Pipe* p = new Pipe; pipes.push_back(p); return p; }
static int64_t pipe_next(Pipe* p) { return p->chunks.empty() ? INT64_MAX : p->chunks.front().first; }
static size_t pipe_avail(Pipe* p) { size_t n = 0; for (auto& c : p->chunks) { if (c.first > now_) break; n += c.second.size(); } return n - ((n > 0) ? p->off : 0); }
static int64_t skew_of(int proc) { return proc < 0 || proc >= 8 ? 0 : mc_cfg.skew[proc] + (mc_cfg.step_at[proc] && now_ - mc_cfg.start_time >= mc_cfg.step_at[proc] ? mc_cfg.step[proc] : 0); }
extern "C" int64_t mc_skew(int proc) { return skew_of(proc); }
static bool readable(Endpoint* e) {
  if (e->kind == 1) return !e->backlog.empty() || e->rd_shut || e->closed;
  if (e->kind == 3) return (!e->dgrams.empty() && e->dgrams.front().at <= now_) || e->rd_shut;
  if (e->kind != 2) return true; // error
  if (e->rd_shut || e->reset) return true;
  if (pipe_avail(e->in)) return true;
  return e->in->wclosed && e->in->chunks.empty();
}

// ------------------------------------------------------------------ scheduling
static bool mutex_free_for(uint64_t m, int tid) { auto it = mutexes.find(m); return it == mutexes.end() || it->second.owner < 0 || (it->second.owner == tid && it->second.type == 1); }
static bool enabled(Thread& t) {
  if (!t.used || t.finished) return false;
  switch (t.op) {
  case OP_RUN: return true;
  case OP_LOCK: return mutex_free_for(t.mutex, t.id);
  case OP_COND: return (t.signalled || t.timedout || (t.timed && now_ >= t.deadline)) && mutex_free_for(t.mutex, t.id);
  case OP_JOIN: return !T[t.jt].used || T[t.jt].finished;
  case OP_SLEEP: return now_ >= t.deadline;
  case OP_READ: case OP_ACCEPT: return readable(t.ep) || (t.timed && now_ >= t.deadline);
  case OP_FLAG: return *t.flag != 0;
  case OP_POLL: { for (int i = 0; i < t.npfds; i++) { auto it = P[t.proc].fds.find(t.pfds[i].fd); if (it != P[t.proc].fds.end() && readable(it->second)) return true; } return t.timed && now_ >= t.deadline; }
  }
  return true;
}
static int64_t next_deadline() {
  int64_t d = INT64_MAX;
  for (int i = 0; i < nT; i++) {
    Thread& t = T[i];
    if (!t.used || t.finished) continue;
    if ((t.op == OP_SLEEP) && t.deadline > now_) d = std::min(d, t.deadline);
    if (t.op == OP_COND && t.timed && !t.signalled && t.deadline > now_) d = std::min(d, t.deadline);
    if ((t.op == OP_READ || t.op == OP_ACCEPT || t.op == OP_POLL) && t.timed && t.deadline > now_) d = std::min(d, t.deadline);
    if (t.op == OP_READ && t.ep->kind == 3 && !t.ep->dgrams.empty() && t.ep->dgrams.front().at > now_) d = std::min(d, t.ep->dgrams.front().at);
    if (t.op == OP_READ && t.ep->kind == 2 && !readable(t.ep)) { int64_t n = pipe_next(t.ep->in); if (n > now_ && n < d) d = n; }
  }
  if (d != INT64_MAX) for (int i = 0; i < 8; i++) if (mc_cfg.step_at[i]) { int64_t at = mc_cfg.start_time + mc_cfg.step_at[i]; if (at > now_ && at < d) d = at; }
  return d;
}
static void set_now(int64_t v) {
  for (int i = 0; i < 8; i++) if (mc_cfg.step_at[i]) { // a clock is set: waits for a time of that clock
    int64_t at = mc_cfg.start_time + mc_cfg.step_at[i];
    if (now_ < at && at <= v) for (int k = 0; k < nT; k++) if (T[k].used && !T[k].finished && T[k].proc == i && T[k].op == OP_COND && T[k].timed) T[k].deadline -= mc_cfg.step[i];
  }
  now_ = v;
  Obj& o = objs.get(TIME_KEY);
  o.hw = hcomb(o.hw + o.hr, (uint64_t)v); o.hr = 0;
  if (mc_cfg.max_time && now_ - mc_cfg.start_time > mc_cfg.max_time) { end_status = MC_HORIZON; if (cur >= 0) to_explorer(); }
}
[[noreturn]] static void to_explorer() {
  if (cur < 0) { if (crash_armed) longjmp(crash_jmp, 2); fatal("to_explorer from explorer: %s", fail_msg); }
  void* dummy; mc_swap(&dummy, explorer_sp);
  fatal("unreachable");
}
static void thread_exit_current();
static void thread_entry() {
  Thread& t = T[cur];
  void* r;
  if (t.mainfn) {
    int rc = t.mainfn(t.arg);
    extern void proc_exit(int code, bool handlers);
    proc_exit(rc, true);
    fatal("unreachable");
  }
  r = t.fn(t.arg);
  T[cur].ret = r;
  thread_exit_current();
}
static int new_thread(int proc) {
  int id = -1;
  // thread slots are not reused within an execution (addresses stay deterministic)
  if (nT < MAXT - 1) id = nT++;
  if (id < 0) fatal("too many threads");
  Thread& t = T[id];
  char* st = t.stack; size_t ss = t.stack_size; auto tls = std::move(t.tls); tls.clear();
  t = Thread(); t.stack = st; t.stack_size = ss; t.tls = std::move(tls);
  t.id = id; t.proc = proc; t.used = true; t.h = mix64(id + 1000); t.op = OP_RUN;
  memset(&t.vc, 0, sizeof t.vc); t.vc.c[id] = 1;
  stack_prepare(t);
  uint64_t* s = (uint64_t*)(t.stack + t.stack_size - 64);
  s = (uint64_t*)((uintptr_t)s & ~15ULL);
  *--s = 0; // fake return address alignment
  *--s = (uint64_t)&thread_entry;
  for (int i = 0; i < 6; i++) *--s = 0;
  t.sp = s;
  return id;
}
static bool prune_ok = true;
// pick the next thread to run. cur_runnable: calling thread may continue.
static int pick(int me) {
  for (;;) {
    int en[MAXT], n = 0;
    int start = me < 0 ? 0 : me;
    for (int k = 0; k < nT; k++) { int i = (start + k) % nT; if (enabled(T[i])) en[n++] = i; }
    if (n == 0) {
      int64_t d = next_deadline();
      if (d == INT64_MAX) { end_status = MC_DEADLOCK; return -1; }
      set_now(d);
      if (end_status == MC_HORIZON) return -1;
      continue;
    }
    bool me_en = me >= 0 && en[0] == me;
    if (me_en && n > 1 && T[me].consecutive > mc_cfg.fair) { // forced switch
      T[me].consecutive = 0;
      for (int i = 0; i + 1 < n; i++) en[i] = en[i + 1];
      n--; me_en = false;
    }
    if (!mc_cfg.sched_points) n = 1;
    int nopt = n; int64_t d = INT64_MAX; int woken[MAXT], nw = 0;
    if (mc_cfg.time_deviation) {
      d = next_deadline();
      if (d != INT64_MAX && (!mc_cfg.max_time || d - mc_cfg.start_time <= mc_cfg.max_time) && (!mc_cfg.max_jump || d - now_ <= mc_cfg.max_jump)) {
        nopt++; // advance, then the default thread
        int64_t save = now_; now_ = d;
        for (int k = 1; k <= nT; k++) { int i = (start + k) % nT; if (i != en[0] && enabled(T[i])) { bool was = false; for (int q = 0; q < n; q++) if (en[q] == i) was = true; if (!was) woken[nw++] = i; } }
        now_ = save;
        nopt += nw;
      }
    }
    int c = choose(nopt, false, 0x51, "sched");
    if (end_status == MC_PRUNED) return -1;
    if (c < n) return en[c];
    set_now(d);
    if (mc_verbose) mc_logf("clock jumps to +%lld", (long long)(now_ - mc_cfg.start_time));
    if (c == n) return en[0];
    return woken[c - n - 1];
  }
}
static void switch_to(int nt) {
  int me = cur;
  if (nt == me) return;
  cur = nt;
  void** from = me < 0 ? &explorer_sp : &T[me].sp;
  T[nt].consecutive = 0;
  mc_swap(from, T[nt].sp);
}
// scheduling point of the current thread; its op fields describe what it wants to do next.
static void point() {
  Thread& t = T[cur];
  steps++; total_steps++; t.consecutive++;
  if (steps > mc_cfg.max_steps) { end_status = MC_HORIZON; to_explorer(); }
  if (mc_cfg.kill_proc == t.proc + 1 && choose(2, false, 0x53, "kill")) mc_kill(t.proc);
  int nt = pick(cur);
  if (nt < 0) to_explorer();
  switch_to(nt);
  t.op = OP_RUN;
}
static void point_run() { T[cur].op = OP_RUN; point(); }

static void thread_exit_current() {
  Thread& t = T[cur];
  t.finished = true;
  rel(t, 0x1000 + t.id);
  hb_rw(t, 0x1000 + t.id, 77);
  steps++; total_steps++;
  int nt = pick(cur);
  if (nt < 0) to_explorer();
  void* dummy; cur = nt; T[nt].consecutive = 0;
  mc_swap(&dummy, T[nt].sp);
  fatal("unreachable");
}
static void ep_close(Endpoint* e) {
  if (e->closed) return;
  e->closed = true;
  if (e->kind == 2) { e->out->wclosed = true; if (e->peer && !e->in->chunks.empty()) { /* unread data: peer gets reset on write */ } e->wr_shut = e->rd_shut = true; }
  if (e->kind == 1) for (Endpoint* b : e->backlog) ep_close(b);
  if (cur >= 0) hb_rw(T[cur], e->key, 91);
  if (e->peer) { if (cur >= 0) hb_rw(T[cur], e->peer->key, 92); }
}
static void proc_kill(int p, int code) {
  Proc& pr = P[p];
  pr.exited = true; pr.code = code;
  for (int i = 0; i < nT; i++) if (T[i].used && T[i].proc == p) T[i].finished = true;
  for (auto& kv : pr.fds) ep_close(kv.second);
  pr.fds.clear();
  // mutexes held by the dead process are in its own memory; nothing to do
}
extern "C" void mc_kill(int p) { if (P[p].exited) return; mc_logf("kill p%d", p); proc_kill(p, 137); if (cur >= 0 && T[cur].proc == p) { int nt = pick(cur); if (nt < 0) to_explorer(); void* d; cur = nt; mc_swap(&d, T[nt].sp); } }
void proc_exit(int code, bool handlers) {
  Proc& p = P[T[cur].proc];
  if (handlers && !p.exiting) {
    p.exiting = true;
    while (!p.atexits.empty()) { auto f = p.atexits.back(); p.atexits.pop_back(); f(); }
  } else if (handlers && p.exiting) {
    // exit() called again (from a handler or another thread): like glibc, continue with the remaining handlers
    while (!p.atexits.empty()) { auto f = p.atexits.back(); p.atexits.pop_back(); f(); }
  }
  mc_logf("process %s exits with code %d", p.name.c_str(), code);
  rel(T[cur], 0x2000 + T[cur].proc); hb_rw(T[cur], 0x2000 + T[cur].proc, 78);
  for (auto& kv : p.fds) (void)kv;
  proc_kill(T[cur].proc, code);
  bool all = true; for (int i = 0; i < nP; i++) if (P[i].used && !P[i].exited) all = false;
  if (all) { end_status = MC_ALL_EXITED; to_explorer(); }
  int nt = pick(cur);
  if (nt < 0) to_explorer();
  void* d; cur = nt; T[nt].consecutive = 0; mc_swap(&d, T[nt].sp);
  fatal("unreachable");
}
extern "C" int mc_spawn(const char* name, int (*fn)(void*), void* arg) {
  int p = nP++;
  if (p >= MAXP) fatal("too many processes");
  P[p] = Proc(); P[p].used = true; P[p].name = name;
  int t = new_thread(p); T[t].mainfn = fn; T[t].arg = arg; P[p].main_tid = t;
  if (cur >= 0) { T[t].h = hcomb(T[t].h, T[cur].h); vc_join(T[t].vc, T[cur].vc, nT); T[cur].vc.c[cur]++; }
  return p;
}
extern "C" int mc_proc_exited(int p, int* code) { if (P[p].exited && code) *code = P[p].code; return P[p].exited; }
extern "C" int mc_proc_alive_threads(int p) { int n = 0; for (int i = 0; i < nT; i++) if (T[i].used && !T[i].finished && T[i].proc == p) n++; return n; }
extern "C" int mc_thread_waiting_in_cond(int tid) { return T[tid].used && !T[tid].finished && T[tid].op == OP_COND; }
extern "C" const char* mc_output(int p) { return P[p].out.c_str(); }

extern "C" int mc_choose(int n, bool free_alt, const char* label) {
  int c = choose(n, free_alt, 0x52 + (uint64_t)(uintptr_t)0, label);
  if (cur >= 0) T[cur].h = hcomb(T[cur].h, 0x300 + c); else env_h = hcomb(env_h, 0x300 + c);
  return c;
}
extern "C" void mc_visible(const void* obj, bool write, const char* label) {
  if (cur < 0) return;
  (void)label;
  point_run();
  if (write) hb_rw(T[cur], (uint64_t)obj, 11); else hb_rd(T[cur], (uint64_t)obj, 12);
}
extern "C" void mc_touch(const void* obj, bool write) {
  if (cur < 0) return;
  if (write) hb_rw(T[cur], (uint64_t)obj, 11); else hb_rd(T[cur], (uint64_t)obj, 12);
}
extern "C" void mc_yield(void) { if (cur >= 0) point_run(); }
extern "C" void mc_stop(void) { end_status = MC_STOPPED; to_explorer(); }
extern "C" void mc_wait_flag(volatile int* flag) {
  Thread& t = T[cur]; t.op = OP_FLAG; t.flag = flag; t.timed = false; point(); hb_rw(t, (uint64_t)flag, 13); acq(t, (uint64_t)flag);
}
extern "C" int64_t mc_now(void) { return now_; }
extern "C" void mc_advance(int64_t ns) { if (ns > 0) { if (cur >= 0) hb_rw(T[cur], TIME_KEY, 14); set_now(now_ + ns); } }
extern "C" void mc_sleep_until(int64_t when) { Thread& t = T[cur]; t.op = OP_SLEEP; t.deadline = when; point(); hb_rd(t, TIME_KEY, 15); }
extern "C" int mc_self(void) { return cur; }
extern "C" int mc_self_proc(void) { return cur < 0 ? -1 : T[cur].proc; }
extern "C" int64_t mc_step(void) { return steps; }
extern "C" void mc_outcome(uint64_t h) { outcome_h = hcomb(outcome_h, h); any_outcome = true; }

// ------------------------------------------------------------------ pthread surface
extern "C" {
int mc_pthread_create(unsigned long* out, const void*, void* (*fn)(void*), void* arg) {
  point_run();
  int id = new_thread(T[cur].proc);
  T[id].fn = fn; T[id].arg = arg;
  T[id].h = hcomb(T[id].h, T[cur].h); vc_join(T[id].vc, T[cur].vc, nT); T[cur].vc.c[cur]++;
  T[cur].h = hcomb(T[cur].h, 0x400 + id);
  if (out) *out = id + 1;
  mc_logf("create thread t%d", id);
  return 0;
}
int mc_pthread_join(unsigned long th, void** ret) {
  int id = (int)th - 1;
  if (id < 0 || id >= nT) return ESRCH;
  if (T[id].detached) return EINVAL;
  Thread& t = T[cur]; t.op = OP_JOIN; t.jt = id; point();
  acq(t, 0x1000 + id); hb_rw(t, 0x1000 + id, 21);
  if (ret) *ret = T[id].ret;
  return 0;
}
int mc_pthread_detach(unsigned long th) { T[th - 1].detached = true; return 0; }
unsigned long mc_pthread_self(void) { return cur + 1; }
int mc_pthread_equal(unsigned long a, unsigned long b) { return a == b; }
void mc_pthread_exit(void* r) { T[cur].ret = r; thread_exit_current(); }
int mc_pthread_mutexattr_init(int* a) { *a = 0; return 0; }
int mc_pthread_mutexattr_settype(int* a, int t) { *a = t; return 0; }
int mc_pthread_mutexattr_destroy(int*) { return 0; }
int mc_pthread_mutex_init(void* m, const int* a) { Mutex mm; mm.type = a ? *a : 0; mutexes[(uint64_t)m] = mm; if (cur >= 0) memset(m, 0, sizeof(pthread_mutex_t)); return 0; }
int mc_pthread_mutex_destroy(void* m) { auto it = mutexes.find((uint64_t)m); if (it != mutexes.end() && it->second.owner >= 0) return EBUSY; mutexes.erase((uint64_t)m); return 0; }
static void check_live(const void* p, const char* what, void* pc) {
  if (!mc_addressable(p, 1)) mc_fail("%s on freed or out-of-bounds memory %p at %s", what, p, symof((uint64_t)pc).c_str());
}
int mc_pthread_mutex_lock(void* m) {
  Thread& t = T[cur]; check_live(m, "mutex lock", __builtin_return_address(0));
  t.op = OP_LOCK; t.mutex = (uint64_t)m;
  { auto it = mutexes.find((uint64_t)m); if (it != mutexes.end() && it->second.owner == cur) {
      if (it->second.type == 2) return EDEADLK;
      if (it->second.type == 1) { t.op = OP_RUN; it->second.count++; return 0; } } }
  point();
  Mutex& mm = mutexes[(uint64_t)m];
  if (mm.owner >= 0) fatal("lock of owned mutex");
  mm.owner = cur; mm.count = 1;
  acq(t, (uint64_t)m); hb_rw(t, (uint64_t)m, 31);
  return 0;
}
int mc_pthread_mutex_trylock(void* m) {
  Thread& t = T[cur]; point_run();
  Mutex& mm = mutexes[(uint64_t)m];
  hb_rw(t, (uint64_t)m, 32);
  if (mm.owner >= 0 && !(mm.owner == cur && mm.type == 1)) return EBUSY;
  mm.owner = cur; mm.count++; acq(t, (uint64_t)m);
  return 0;
}
int mc_pthread_mutex_unlock(void* m) {
  Thread& t = T[cur]; check_live(m, "mutex unlock", __builtin_return_address(0));
  Mutex& mm = mutexes[(uint64_t)m];
  if (mm.owner != cur) {
    if (mm.type == 0) mc_fail("unlock of a mutex not held by the thread at %s", symof((uint64_t)__builtin_return_address(0)).c_str());
    return EPERM;
  }
  if (--mm.count == 0) { mm.owner = -1; rel(t, (uint64_t)m); }
  return 0;
}
int mc_pthread_condattr_init(int* a) { *a = 0; return 0; }
int mc_pthread_condattr_setpshared(int*, int) { return 0; }
int mc_pthread_condattr_setclock(int*, int) { return 0; }
int mc_pthread_condattr_destroy(int*) { return 0; }
int mc_pthread_cond_init(void* c, const int*) { conds[(uint64_t)c].waiters.clear(); return 0; }
int mc_pthread_cond_destroy(void* c) { conds.erase((uint64_t)c); return 0; }
static int cond_wait_impl(void* c, void* m, bool timed, int64_t deadline) {
  Thread& t = T[cur];
  point_run(); // window between the predicate check and the wait
  Mutex& mm = mutexes[(uint64_t)m];
  if (mm.owner != cur) { mc_fail("condition wait without holding the mutex"); return EPERM; }
  hb_rw(t, (uint64_t)c, 41);
  if (mc_cfg.spurious && mc_choose(2, false, "spurious")) return 0;
  // glibc releases one level only
  int remaining = --mm.count;
  if (remaining == 0) { mm.owner = -1; rel(t, (uint64_t)m); }
  t.op = OP_COND; t.cond = (uint64_t)c; t.mutex = (uint64_t)m; t.timed = timed; t.deadline = deadline; t.signalled = t.timedout = false; t.blocked_seq = ++blocked_counter;
  conds[(uint64_t)c].waiters.push_back(cur);
  steps++; total_steps++;
  int nt = pick(cur);
  if (nt < 0) to_explorer();
  switch_to(nt);
  t.op = OP_RUN;
  auto& w = conds[(uint64_t)c].waiters; w.erase(std::remove(w.begin(), w.end(), cur), w.end());
  Mutex& m2 = mutexes[(uint64_t)m];
  m2.owner = cur; m2.count = remaining + 1;
  acq(t, (uint64_t)m); hb_rw(t, (uint64_t)m, 42); hb_rw(t, (uint64_t)c, 43);
  bool sig = t.signalled;
  if (!sig) { hb_rd(t, TIME_KEY, 44); return ETIMEDOUT; }
  return 0;
}
int mc_pthread_cond_wait(void* c, void* m) { check_live(c, "condition wait", __builtin_return_address(0)); return cond_wait_impl(c, m, false, 0); }
int mc_pthread_cond_timedwait(void* c, void* m, const struct timespec* ts) {
  check_live(c, "condition wait", __builtin_return_address(0));
  if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
  if (ts->tv_sec < 0) { // already in the past: pthread returns ETIMEDOUT after releasing and re-acquiring
    return cond_wait_impl(c, m, true, 0);
  }
  __int128 d = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec;
  d -= skew_of(T[cur].proc);
  return cond_wait_impl(c, m, true, d > INT64_MAX ? INT64_MAX : (int64_t)d);
}
static void cond_wake(uint64_t c, int tid) { T[tid].signalled = true; auto& w = conds[c].waiters; w.erase(std::remove(w.begin(), w.end(), tid), w.end()); }
int mc_pthread_cond_signal(void* c) {
  Thread& t = T[cur]; check_live(c, "condition signal", __builtin_return_address(0));
  point_run(); hb_rw(t, (uint64_t)c, 45);
  auto& w = conds[(uint64_t)c].waiters;
  if (w.empty()) return 0;
  int k = w.size() > 1 ? mc_choose((int)w.size(), false, "signal") : 0;
  cond_wake((uint64_t)c, w[k]);
  return 0;
}
int mc_pthread_cond_broadcast(void* c) {
  Thread& t = T[cur]; check_live(c, "condition broadcast", __builtin_return_address(0));
  point_run(); hb_rw(t, (uint64_t)c, 46);
  auto w = conds[(uint64_t)c].waiters;
  for (int i : w) cond_wake((uint64_t)c, i);
  return 0;
}
int mc_pthread_once(int* o, void (*f)(void)) { if (!*o) { *o = 1; f(); } return 0; }
int mc_pthread_setaffinity_np(unsigned long, size_t, const void*) { return 0; }
int mc_pthread_getschedparam(unsigned long, int* pol, struct sched_param* sp) { *pol = SCHED_OTHER; memset(sp, 0, sizeof *sp); return 0; }
int mc_pthread_setschedparam(unsigned long, int, const struct sched_param*) { return 0; }
int mc_pthread_setschedprio(unsigned long, int) { return 0; }
int mc_sched_yield(void) { point_run(); return 0; }

// ------------------------------------------------------------------ clock
int mc_clock_gettime(int, struct timespec* ts) {
  if (cur >= 0) {
    if (mc_cfg.clock_read_points) {
      int64_t d = next_deadline();
      if (d != INT64_MAX && mc_choose(2, false, "clock")) set_now(d);
    }
    now_ += mc_cfg.tick;
    hb_rd(T[cur], TIME_KEY, 51);
  }
  int64_t v = now_ + (cur >= 0 ? skew_of(T[cur].proc) : 0);
  ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; return 0;
}
int mc_clock_getres(int, struct timespec* ts) { if (ts) { ts->tv_sec = 0; ts->tv_nsec = 1; } return 0; }
static int do_sleep(int64_t ns) { Thread& t = T[cur]; hb_rd(t, TIME_KEY, 52); t.op = OP_SLEEP; t.deadline = now_ + (ns < 0 ? 0 : ns); point(); hb_rd(t, TIME_KEY, 53); return 0; }
int mc_nanosleep(const struct timespec* ts, struct timespec*) { if (ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec > 999999999) { T[cur].err = EINVAL; return -1; } return do_sleep(ts->tv_sec * 1000000000LL + ts->tv_nsec); }
int mc_clock_nanosleep(int, int flags, const struct timespec* ts, struct timespec*) { int64_t v = ts->tv_sec * 1000000000LL + ts->tv_nsec; if (flags & TIMER_ABSTIME) v -= now_ + skew_of(T[cur].proc); return do_sleep(v); }
int mc_usleep(unsigned us) { return do_sleep((int64_t)us * 1000); }
unsigned mc_sleep(unsigned s) { do_sleep((int64_t)s * 1000000000); return 0; }
time_t mc_time(time_t* p) { time_t t = (now_ + (cur >= 0 ? skew_of(T[cur].proc) : 0)) / 1000000000; if (p) *p = t; return t; }
int mc_gettimeofday(struct timeval* tv, void*) { int64_t v = now_ + (cur >= 0 ? skew_of(T[cur].proc) : 0); tv->tv_sec = v / 1000000000; tv->tv_usec = v % 1000000000 / 1000; return 0; }
long mc_sysconf(int) { return mc_cfg.cores; }
static uint32_t rand_state;
int mc_rand(void) { rand_state = rand_state * 1103515245 + 12345; return (rand_state >> 1) & 0x7fffffff; }
void mc_srand(unsigned s) { rand_state = s; }
long mc_random(void) { return mc_rand(); }
int* mc_errno_location(void) { static int e; return cur >= 0 ? &T[cur].err : &e; }
void* mc_emutls_get_address(void* control) {
  struct Ctl { size_t size, align; void* p; void* templ; }* c = (Ctl*)control;
  static std::vector<std::pair<void*, void*>> host;
  auto& m = cur >= 0 ? T[cur].tls : host;
  for (auto& kv : m) if (kv.first == control) return kv.second;
  void* v = cur >= 0 ? arena_alloc(c->size, true, nullptr) : calloc(1, c->size);
  if (cur >= 0) { Blk* b = blk_of(v); P[b->proc].live--; P[b->proc].live_bytes -= b->size; b->proc = -1; }
  if (c->templ) memcpy(v, c->templ, c->size);
  m.push_back({control, v});
  return v;
}
// ------------------------------------------------------------------ process surface
void mc_exit(int code) { if (cur < 0) fatal("exit(%d) called by the explorer side", code); proc_exit(code, true); }
void mc__exit(int code) { proc_exit(code, false); }
int mc_atexit(void (*f)(void)) { if (cur >= 0) P[T[cur].proc].atexits.push_back(f); return 0; }
void mc_abort(void) { mc_fail("abort() called at %s", symof((uint64_t)__builtin_return_address(0)).c_str()); fatal("abort"); }
void mc_assert_fail(const char* e, const char* f, unsigned l, const char* fn) { mc_fail("assertion failed: %s (%s:%u %s)", e, f, l, fn); fatal("assert in explorer: %s", e); }
void* mc_signal(int, void*) { return nullptr; }
int mc_sigaction(int, const void*, void*) { return 0; }
int mc_raise(int) { return 0; }
int mc_getpid(void) { return 4242; }

// ------------------------------------------------------------------ stdio
struct MFile { uint64_t magic; std::string* name; std::vector<unsigned char>* data; size_t pos; bool w; };
#define FMAGIC 0x66696c65ULL
} // extern C
static std::map<std::string, std::vector<unsigned char>> files; static std::vector<MFile*> mfiles;
static MFile* as_m(void* f) { for (MFile* m : mfiles) if (m == f) return m; return nullptr; }
static void out(const char* s, size_t n) {
  if (cur < 0) { fwrite(s, 1, n, stdout); return; }
  if (mc_keep_output) P[T[cur].proc].out.append(s, n);
  if (mc_verbose) { printf("    %s| %.*s", P[T[cur].proc].name.c_str(), (int)n, s); if (!n || s[n - 1] != '\n') printf("\n"); }
}
static int voutf(void* f, const char* fmt, va_list ap) {
  MFile* m = as_m(f);
  if (!m && !mc_keep_output && !mc_verbose && cur >= 0) return 0;
  char buf[2048]; va_list a2; va_copy(a2, ap);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  std::string big; const char* s = buf;
  if (n >= (int)sizeof buf) { big.resize(n + 1); vsnprintf(&big[0], n + 1, fmt, a2); s = big.c_str(); }
  va_end(a2);
  if (m) { m->data->insert(m->data->end(), s, s + n); } else out(s, n);
  return n;
}
extern "C" {
int mc_vfprintf(void* f, const char* fmt, va_list ap) { return voutf(f, fmt, ap); }
int mc_vprintf(const char* fmt, va_list ap) { return voutf(stdout, fmt, ap); }
int mc_printf(const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = voutf(stdout, fmt, ap); va_end(ap); return r; }
int mc_fprintf(void* f, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = voutf(f, fmt, ap); va_end(ap); return r; }
int mc_puts(const char* s) { out(s, strlen(s)); out("\n", 1); return 1; }
int mc_putchar(int c) { char ch = (char)c; out(&ch, 1); return c; }
int mc_fputs(const char* s, void* f) { MFile* m = as_m(f); if (m) m->data->insert(m->data->end(), s, s + strlen(s)); else out(s, strlen(s)); return 1; }
int mc_fputc(int c, void* f) { char ch = (char)c; MFile* m = as_m(f); if (m) m->data->push_back(ch); else out(&ch, 1); return c; }
int mc_fflush(void*) { return 0; }
void mc_perror(const char* s) { out(s, strlen(s)); }
void* mc_fopen(const char* name, const char* mode) {
  bool w = strchr(mode, 'w') || strchr(mode, 'a');
  if (!w && !files.count(name)) { T[cur].err = ENOENT; return nullptr; }
  MFile* m = new MFile; m->magic = FMAGIC; m->name = new std::string(name); m->w = w;
  if (strchr(mode, 'w')) files[name].clear();
  m->data = &files[name]; m->pos = 0; mfiles.push_back(m); return m;
}
int mc_fclose(void* f) { MFile* m = as_m(f); if (!m) { mc_fail("fclose of an invalid or closed file"); return -1; } mfiles.erase(std::find(mfiles.begin(), mfiles.end(), m)); delete m->name; delete m; return 0; }
size_t mc_fwrite(const void* p, size_t sz, size_t n, void* f) {
  MFile* m = as_m(f);
  if (!m) { if (f == stdout || f == stderr) { out((const char*)p, sz * n); return n; } mc_fail("fwrite to a closed file"); return 0; }
  if (cur >= 0) { point_run(); hb_rw(T[cur], (uint64_t)0x9000, 61); }
  if (!mc_addressable(p, sz * n)) mc_fail("fwrite reads beyond an allocation");
  m->data->insert(m->data->end(), (const unsigned char*)p, (const unsigned char*)p + sz * n); return n;
}
size_t mc_fread(void* p, size_t sz, size_t n, void* f) {
  MFile* m = as_m(f); if (!m) return 0;
  size_t av = m->data->size() - m->pos, want = sz * n; if (want > av) want = av / sz * sz;
  memcpy(p, m->data->data() + m->pos, want); m->pos += want; return want / sz;
}
int mc_fgetc(void* f) { MFile* m = as_m(f); if (!m || m->pos >= m->data->size()) return EOF; return (*m->data)[m->pos++]; }
int mc_feof(void* f) { MFile* m = as_m(f); return !m || m->pos >= m->data->size(); }
const unsigned char* mc_file(const char* name, size_t* size) { auto it = files.find(name); if (it == files.end()) return nullptr; *size = it->second.size(); return it->second.data(); }
void mc_file_put(const char* name, const void* d, size_t n) { files[name].assign((const unsigned char*)d, (const unsigned char*)d + n); }

// ------------------------------------------------------------------ sockets
static Endpoint* fd_ep(int fd) { auto& m = P[T[cur].proc].fds; auto it = m.find(fd); if (it == m.end()) { T[cur].err = EBADF; return nullptr; } return it->second; }
static int new_fd(Endpoint* e) { auto& m = P[T[cur].proc].fds; int fd = 3; while (m.count(fd)) fd++; m[fd] = e; e->fd = fd; return fd; }
int mc_socket(int, int type, int) { Endpoint* e = new_ep(T[cur].proc); if ((type & 0xf) == SOCK_DGRAM) e->kind = 3; return new_fd(e); }
static bool port_used(int port, int kind) { for (Endpoint* e : eps) if (!e->closed && e->port == port && ((kind == 3) == (e->kind == 3)) && (e->kind == 1 || e->kind == 3 || e->kind == 0)) return true; return false; }
int mc_bind(int fd, const void* sa, unsigned) {
  Endpoint* e = fd_ep(fd); if (!e) return -1;
  int port = ntohs(((const struct sockaddr_in*)sa)->sin_port);
  point_run(); hb_rw(T[cur], 0x40, 70);
  if (!port) port = next_port++;
  if (port_used(port, e->kind)) { T[cur].err = EADDRINUSE; return -1; }
  e->port = port; return 0;
}
int mc_listen(int fd, int) { Endpoint* e = fd_ep(fd); if (!e) return -1; hb_rw(T[cur], 0x40, 71); e->kind = 1; if (!e->port) e->port = next_port++; return 0; }
int mc_accept(int fd, void* sa, unsigned* len) {
  Endpoint* e = fd_ep(fd); if (!e) return -1;
  if (e->kind != 1) { T[cur].err = EINVAL; return -1; }
  Thread& t = T[cur]; t.op = OP_ACCEPT; t.ep = e; t.timed = e->rcvtimeo > 0; t.deadline = now_ + e->rcvtimeo; point();
  hb_rw(t, e->key, 72); acq(t, e->key);
  if (e->backlog.empty()) { t.err = e->closed ? EBADF : e->rd_shut ? EINVAL : EAGAIN; return -1; }
  Endpoint* n = e->backlog.front(); e->backlog.pop_front();
  n->proc = t.proc;
  if (sa && len) { struct sockaddr_in* a = (struct sockaddr_in*)sa; memset(a, 0, sizeof *a); a->sin_family = AF_INET; a->sin_port = htons(n->peer_port); a->sin_addr.s_addr = htonl(INADDR_LOOPBACK); *len = sizeof *a; }
  return new_fd(n);
}
int mc_connect(int fd, const void* sa, unsigned) {
  Endpoint* e = fd_ep(fd); if (!e) return -1;
  int port = ntohs(((const struct sockaddr_in*)sa)->sin_port);
  Thread& t = T[cur]; point_run();
  if (e->kind == 3) { hb_rw(t, e->key, 93); e->udp_peer = port; if (!e->port) e->port = next_port++; return 0; }
  if (e->kind == 2) { t.err = EISCONN; return -1; }
  hb_rw(t, 0x40, 73);
  Endpoint* l = nullptr;
  for (Endpoint* x : eps) if (x->kind == 1 && !x->closed && !x->rd_shut && x->port == port) l = x;
  if (!l) { t.err = ECONNREFUSED; return -1; }
  Endpoint* o = new_ep(l->proc);
  Pipe* a = new_pipe(); Pipe* b = new_pipe();
  e->kind = o->kind = 2; e->in = a; e->out = b; o->in = b; o->out = a; e->peer = o; o->peer = e;
  if (!e->port) e->port = next_port++;
  o->port = l->port; o->peer_port = e->port; e->peer_port = l->port;
  l->backlog.push_back(o);
  hb_rw(t, l->key, 74); rel(t, l->key);
  return 0;
}
int mc_getsockname(int fd, void* sa, unsigned* len) {
  Endpoint* e = fd_ep(fd); if (!e) return -1;
  struct sockaddr_in* a = (struct sockaddr_in*)sa; memset(a, 0, sizeof *a); a->sin_family = AF_INET; a->sin_port = htons(e->port); a->sin_addr.s_addr = htonl(INADDR_ANY); *len = sizeof *a; return 0;
}
int mc_getpeername(int fd, void* sa, unsigned* len) {
  Endpoint* e = fd_ep(fd); if (!e) return -1;
  if (e->kind != 2) { T[cur].err = ENOTCONN; return -1; }
  struct sockaddr_in* a = (struct sockaddr_in*)sa; memset(a, 0, sizeof *a); a->sin_family = AF_INET; a->sin_port = htons(e->peer_port); a->sin_addr.s_addr = htonl(INADDR_LOOPBACK); *len = sizeof *a; return 0;
}
int mc_setsockopt(int fd, int level, int name, const void* v, unsigned) {
  Endpoint* e = fd_ep(fd); if (!e) return -1;
  if (level == SOL_SOCKET && name == SO_RCVTIMEO) { const struct timeval* tv = (const struct timeval*)v; e->rcvtimeo = tv->tv_sec * 1000000000LL + tv->tv_usec * 1000LL; }
  return 0;
}
int mc_getsockopt(int, int, int, void* v, unsigned*) { if (v) *(int*)v = 0; return 0; }
static size_t short_count(size_t n, const char* what) {
  if (n > 1 && mc_cfg.short_io) { int k = mc_choose(n > 2 ? 3 : 2, false, what); if (k == 1) return 1; if (k == 2) return n - 1; }
  return n;
}
static long stream_read(Endpoint* e, void* buf, size_t n, int flags) {
  Thread& t = T[cur];
  if (e->kind != 2 && e->kind != 3) { t.err = ENOTCONN; return -1; }
  if (!mc_addressable(buf, n)) mc_fail("socket read of %zu bytes writes beyond an allocation", n);
  if (flags & MSG_DONTWAIT || e->nonblock) { point_run(); if (!readable(e)) { hb_rw(t, e->key, 80); t.err = EAGAIN; return -1; } }
  else { t.op = OP_READ; t.ep = e; t.timed = e->rcvtimeo > 0; t.deadline = now_ + e->rcvtimeo; e->refs++; point(); e->refs--; }
  hb_rw(t, e->key, 81); acq(t, e->key);
  if (mc_cfg.eintr_io) { int k = mc_choose(2, false, "eintr"); if (k) { t.err = EINTR; return -1; } }
  if (!readable(e)) { t.err = EAGAIN; return -1; }
  if (e->kind == 3) {
    if (e->dgrams.empty() || e->dgrams.front().at > now_) return 0;
    auto d = e->dgrams.front(); if (!(flags & MSG_PEEK)) e->dgrams.pop_front();
    size_t k = std::min(n, d.data.size()); memcpy(buf, d.data.data(), k); t.saved = d.from; return (long)k;
  }
  if (e->reset && !pipe_avail(e->in)) { t.err = ECONNRESET; return -1; }
  size_t av = pipe_avail(e->in);
  if (e->rd_shut && !av) return 0;
  if (!av) return 0; // EOF
  size_t k = std::min(n, av);
  if (!(flags & MSG_PEEK)) k = short_count(k, "short read");
  size_t done = 0, off = e->in->off; size_t ci = 0;
  while (done < k) {
    std::string& c = e->in->chunks[(flags & MSG_PEEK) ? ci : 0].second;
    size_t m = std::min(k - done, c.size() - off);
    memcpy((char*)buf + done, c.data() + off, m); done += m; off += m;
    if (off == c.size()) { off = 0; if (flags & MSG_PEEK) ci++; else { e->in->chunks.pop_front(); } }
  }
  if (!(flags & MSG_PEEK)) e->in->off = off;
  return (long)k;
}
static int64_t delayed_writes;
extern "C" int64_t mc_delayed(void) { return delayed_writes; }
static int64_t latency_of(int proc) {
  int64_t l = mc_cfg.net_latency + (mc_cfg.slow_proc == proc + 1 ? mc_cfg.slow_latency : 0);
  if (mc_cfg.lat_dev && mc_choose(2, false, "delay")) { delayed_writes++; l += mc_cfg.lat_dev; }
  return l;
}
static long stream_write(Endpoint* e, const void* buf, size_t n) {
  Thread& t = T[cur];
  if (!mc_addressable(buf, n)) mc_fail("socket write of %zu bytes reads beyond an allocation", n);
  point_run();
  if (e->kind == 3) {
    hb_rw(t, e->key + 1, 94);
    if (!e->udp_peer) { t.err = EDESTADDRREQ; return -1; }
    for (Endpoint* x : eps) if (x->kind == 3 && !x->closed && x->port == e->udp_peer) {
      hb_rw(t, x->key, 83); rel(t, x->key);
      if (mc_cfg.udp_loss && mc_choose(2, false, "udp loss")) return (long)n;
      int64_t at = now_ + latency_of(t.proc);
      if (!x->dgrams.empty()) at = std::max(at, x->dgrams.back().at);
      x->dgrams.push_back({at, e->port, std::string((const char*)buf, n)});
      return (long)n;
    }
    return (long)n;
  }
  if (e->kind != 2) { t.err = ENOTCONN; return -1; }
  hb_rw(t, e->key, 84);
  if (e->wr_shut) { t.err = EPIPE; return -1; }
  if (mc_cfg.eintr_io) { int k = mc_choose(2, false, "eintr"); if (k) { t.err = EINTR; return -1; } }
  Endpoint* p = e->peer;
  hb_rw(t, p->key, 85); rel(t, p->key);
  if (p->closed) { t.err = EPIPE; return -1; }
  bool torn = false; // the process ends after a part of the write
  if (mc_cfg.kill_proc == t.proc + 1 && n > 1) { int k = mc_choose(4, false, "torn write"); if (k) { torn = true; n = k == 1 ? 1 : k == 2 ? n / 2 : n - 1; } }
  if (!torn) n = short_count(n, "short write");
  int64_t at = now_ + latency_of(t.proc);
  if (at < e->out->last_at) at = e->out->last_at;
  e->out->last_at = at;
  if (n) e->out->chunks.push_back({at, std::string((const char*)buf, n)});
  if (torn) mc_kill(t.proc);
  return (long)n;
}
long mc_read(int fd, void* b, size_t n) { Endpoint* e = fd_ep(fd); if (!e) return -1; return stream_read(e, b, n, 0); }
long mc_recv(int fd, void* b, size_t n, int fl) { Endpoint* e = fd_ep(fd); if (!e) return -1; return stream_read(e, b, n, fl); }
long mc_recvfrom(int fd, void* b, size_t n, int fl, void* sa, unsigned* len) {
  Endpoint* e = fd_ep(fd); if (!e) return -1;
  long r = stream_read(e, b, n, fl & ~MSG_WAITALL);
  if (r >= 0 && sa && len) { struct sockaddr_in* a = (struct sockaddr_in*)sa; memset(a, 0, sizeof *a); a->sin_family = AF_INET; a->sin_port = htons(T[cur].saved); a->sin_addr.s_addr = htonl(INADDR_LOOPBACK); *len = sizeof *a; }
  return r;
}
long mc_write(int fd, const void* b, size_t n) { Endpoint* e = fd_ep(fd); if (!e) return -1; return stream_write(e, b, n); }
long mc_send(int fd, const void* b, size_t n, int) { return mc_write(fd, b, n); }
long mc_sendto(int fd, const void* b, size_t n, int, const void* sa, unsigned) {
  Endpoint* e = fd_ep(fd); if (!e) return -1;
  if (e->kind == 3 && sa) { int save = e->udp_peer; e->udp_peer = ntohs(((const struct sockaddr_in*)sa)->sin_port); if (!e->port) e->port = next_port++; long r = stream_write(e, b, n); e->udp_peer = save; return r; }
  return stream_write(e, b, n);
}
int mc_shutdown(int fd, int how) {
  Endpoint* e = fd_ep(fd); if (!e) return -1;
  point_run(); hb_rw(T[cur], e->key, 86); rel(T[cur], e->key);
  if (e->kind == 1) { e->rd_shut = true; return 0; }
  if (e->kind == 3) { e->rd_shut = true; return 0; }
  if (e->kind != 2) { T[cur].err = ENOTCONN; return -1; }
  if (how == SHUT_RD || how == SHUT_RDWR) e->rd_shut = true;
  if (how == SHUT_WR || how == SHUT_RDWR) { e->wr_shut = true; e->out->wclosed = true; hb_rw(T[cur], e->peer->key, 87); rel(T[cur], e->peer->key); }
  return 0;
}
int mc_close(int fd) {
  Endpoint* e = fd_ep(fd); if (!e) return -1;
  point_run();
  auto& m = P[T[cur].proc].fds; auto it = m.find(fd);
  if (it == m.end() || it->second != e) { T[cur].err = EBADF; return -1; }
  m.erase(it);
  ep_close(e);
  return 0;
}
int mc_poll(struct pollfd* f, unsigned long n, int timeout) {
  Thread& t = T[cur]; t.op = OP_POLL; t.pfds = f; t.npfds = (int)n; t.timed = timeout >= 0; t.deadline = now_ + (int64_t)timeout * 1000000; point();
  int r = 0;
  for (unsigned long i = 0; i < n; i++) { f[i].revents = 0; auto it = P[t.proc].fds.find(f[i].fd); if (it != P[t.proc].fds.end() && readable(it->second)) { f[i].revents = POLLIN; r++; hb_rw(t, it->second->key, 88); } }
  return r;
}
int mc_fcntl(int fd, int cmd, ...) { Endpoint* e = fd_ep(fd); va_list ap; va_start(ap, cmd); long v = va_arg(ap, long); va_end(ap); if (!e) return -1; if (cmd == F_SETFL) e->nonblock = v & O_NONBLOCK; return 0; }
struct AI { struct addrinfo ai; struct sockaddr_in sa; };
int mc_getaddrinfo(const char*, const char* service, const struct addrinfo*, struct addrinfo** res) {
  AI* a = (AI*)arena_alloc(sizeof(AI), true, nullptr);
  a->ai.ai_family = AF_INET; a->ai.ai_socktype = SOCK_STREAM; a->ai.ai_addr = (struct sockaddr*)&a->sa; a->ai.ai_addrlen = sizeof a->sa;
  a->sa.sin_family = AF_INET; a->sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a->sa.sin_port = htons(service ? atoi(service) : 0);
  *res = &a->ai; return 0;
}
void mc_freeaddrinfo(struct addrinfo* a) { arena_free(a, __builtin_return_address(0)); }

// ------------------------------------------------------------------ checked string helpers
#define RA __builtin_return_address(0)
static void rng(const void* p, size_t n, bool w, void* pc);
void* mc_memcpy(void* d, const void* s, size_t n) { rng(s, n, false, RA); rng(d, n, true, RA); return memmove(d, s, n); }
void* mc_memmove(void* d, const void* s, size_t n) { rng(s, n, false, RA); rng(d, n, true, RA); return memmove(d, s, n); }
void* mc_memset(void* d, int c, size_t n) { rng(d, n, true, RA); return memset(d, c, n); }
int mc_memcmp(const void* a, const void* b, size_t n) { rng(a, n, false, RA); rng(b, n, false, RA); return memcmp(a, b, n); }
static size_t xstrlen(const char* s, void* pc) { size_t n = 0; for (;; n++) { if (!mc_addressable(s + n, 1)) { mc_fail("string read beyond an allocation at %s", symof((uint64_t)pc).c_str()); return n; } if (!s[n]) break; } return n; }
static size_t xstrnlen(const char* s, size_t m, void* pc) { size_t n = 0; for (; n < m; n++) { if (!mc_addressable(s + n, 1)) { mc_fail("string read beyond an allocation at %s", symof((uint64_t)pc).c_str()); return n; } if (!s[n]) break; } return n; }
size_t mc_strlen(const char* s) { return xstrlen(s, RA); }
size_t mc_strnlen(const char* s, size_t m) { return xstrnlen(s, m, RA); }
char* mc_strcpy(char* d, const char* s) { size_t n = xstrlen(s, RA); rng(d, n + 1, true, RA); return strcpy(d, s); }
char* mc_strncpy(char* d, const char* s, size_t m) { xstrnlen(s, m, RA); rng(d, m, true, RA); return strncpy(d, s, m); }
int mc_strcmp(const char* a, const char* b) {
  for (size_t i = 0;; i++) { if (!mc_addressable(a + i, 1) || !mc_addressable(b + i, 1)) { mc_fail("strcmp reads beyond an allocation at %s", symof((uint64_t)RA).c_str()); return 0; } if (a[i] != b[i] || !a[i]) return (unsigned char)a[i] - (unsigned char)b[i]; }
}
int mc_strncmp(const char* a, const char* b, size_t n) {
  for (size_t i = 0; i < n; i++) { if (!mc_addressable(a + i, 1) || !mc_addressable(b + i, 1)) { mc_fail("strncmp reads beyond an allocation at %s", symof((uint64_t)RA).c_str()); return 0; } if (a[i] != b[i] || !a[i]) return (unsigned char)a[i] - (unsigned char)b[i]; }
  return 0;
}
char* mc_strdup(const char* s) { size_t n = xstrlen(s, RA); char* p = (char*)arena_alloc(n + 1, false, RA); memcpy(p, s, n + 1); return p; }
char* mc_strndup(const char* s, size_t m) { size_t n = xstrnlen(s, m, RA); char* p = (char*)arena_alloc(n + 1, false, RA); memcpy(p, s, n); p[n] = 0; return p; }
char* mc_strcat(char* d, const char* s) { size_t n = xstrlen(d, RA), k = xstrlen(s, RA); rng(d + n, k + 1, true, RA); memcpy(d + n, s, k + 1); return d; }
int mc_vsnprintf(char* d, size_t n, const char* fmt, va_list ap) { int r = vsnprintf(d, n, fmt, ap); if (n) rng(d, std::min((size_t)r + 1, n), true, RA); return r; }
int mc_snprintf(char* d, size_t n, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = vsnprintf(d, n, fmt, ap); va_end(ap); if (n) rng(d, std::min((size_t)r + 1, n), true, RA); return r; }
int mc_sprintf(char* d, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = vsprintf(d, fmt, ap); va_end(ap); rng(d, (size_t)r + 1, true, RA); return r; }
} // extern "C"

// ------------------------------------------------------------------ instrumentation callbacks
static inline void report_bad(uintptr_t u, size_t n, bool w, void* pc) {
  uint8_t s = ashadow[(u - ARENA_BASE) / 8];
  // find the block for the message
  const char* what = s == POISON_FREED ? "use after free" : "out-of-bounds access";
  uint64_t bp = u & ~15ULL; Blk* b = nullptr;
  for (Blk* x : blks) if ((uintptr_t)x <= bp && (!b || x > b) && (uintptr_t)x + 64 + x->size > u - 16) b = x;
  mc_fail("%s: %s of %zu bytes at %s (block of %u bytes allocated at %s)", what, w ? "write" : "read", n, symof((uint64_t)pc).c_str(), b ? b->size : 0, b ? symof(b->pc).c_str() : "?");
}
static void note_race(uint32_t pc) {
  if (pc < racy.size() && !racy[pc]) { racy[pc] = 2; racy_list.push_back(pc); new_racy = true; }
}
static inline void race_check(Cell* c, bool w, uint32_t pc) {
  Thread& t = T[cur];
  if (c->gen != cellgen) { memset(c, 0, sizeof *c); c->gen = cellgen; c->wt = c->rt = c->rt2 = 255; }
  if (c->wt != 255 && c->wt != cur && c->wc > t.vc.c[c->wt]) { note_race(pc); note_race(c->wpc); race_pairs++; }
  if (w) {
    if (c->rt != 255 && c->rt != cur && c->rc > t.vc.c[c->rt]) { note_race(pc); note_race(c->rpc); }
    if (c->rt2 != 255 && c->rt2 != cur && c->rc2 > t.vc.c[c->rt2]) { note_race(pc); note_race(c->rpc2); }
    c->wt = (uint8_t)cur; c->wc = t.vc.c[cur]; c->wpc = pc; c->rt = c->rt2 = 255;
  } else if (c->rt == 255 || c->rt == cur || c->rc <= t.vc.c[c->rt]) { c->rt = (uint8_t)cur; c->rc = t.vc.c[cur]; c->rpc = pc; }
  else { c->rt2 = (uint8_t)cur; c->rc2 = t.vc.c[cur]; c->rpc2 = pc; }
}
static inline void access_(uintptr_t u, size_t n, bool w, void* pc) {
  if (cur < 0) return;
  Cell* c;
  if (u - ARENA_BASE < ARENA_SIZE) {
    uintptr_t o = u - ARENA_BASE;
    uint8_t s = ashadow[o / 8];
    if (__builtin_expect(s != 0, 0)) { if (s > 8 || (u & 7) + std::min(n, (size_t)8) > s) { report_bad(u, n, w, pc); return; } }
    if (n > 1 && ((u + n - 1) ^ u) & ~7ULL) { uint8_t s2 = ashadow[(o + n - 1) / 8]; if (s2 && (s2 > 8 || ((u + n - 1) & 7) >= s2)) { report_bad(u + n - 1, n, w, pc); return; } }
    if (!mc_cfg.race_points) return;
    c = &acells[o / 8];
  } else if (u - img_data < img_end - img_data) {
    if (!mc_cfg.race_points) return;
    c = &dcells[(u - img_data) / 8];
  } else return;
  uint32_t pco = (uint32_t)((uintptr_t)pc - img_text);
  if (pco < racy.size() && racy[pco] == 1) {
    point_run();
    if (w) hb_rw(T[cur], u & ~7ULL, 95); else hb_rd(T[cur], u & ~7ULL, 96);
  }
  race_check(c, w, pco);
}
extern "C" {
static void rng(const void* p, size_t n, bool w, void* pc) {
  uintptr_t u = (uintptr_t)p;
  if (!n || cur < 0) return;
  if (u - ARENA_BASE < ARENA_SIZE) {
    if (!mc_addressable(p, n)) { size_t i = 0; while (mc_addressable((const char*)p + i, 1)) i++; report_bad(u + i, n, w, pc); return; }
  }
  if (!mc_cfg.race_points) return;
  if (u - ARENA_BASE < ARENA_SIZE || u - img_data < img_end - img_data) {
    access_(u, 1, w, pc);
    for (uintptr_t a = (u & ~7ULL) + 8; a < u + n; a += 8) {
      Cell* c = a - ARENA_BASE < ARENA_SIZE ? &acells[(a - ARENA_BASE) / 8] : &dcells[(a - img_data) / 8];
      race_check(c, w, (uint32_t)((uintptr_t)pc - img_text));
    }
  }
}
#define RW(N) \
  void __tsan_read##N(void* a) { access_((uintptr_t)a, N, false, RA); } \
  void __tsan_write##N(void* a) { access_((uintptr_t)a, N, true, RA); } \
  void __tsan_unaligned_read##N(void* a) { access_((uintptr_t)a, N, false, RA); } \
  void __tsan_unaligned_write##N(void* a) { access_((uintptr_t)a, N, true, RA); } \
  void __tsan_volatile_read##N(void* a) { access_((uintptr_t)a, N, false, RA); } \
  void __tsan_volatile_write##N(void* a) { access_((uintptr_t)a, N, true, RA); } \
  void __tsan_read_write##N(void* a) { access_((uintptr_t)a, N, false, RA); access_((uintptr_t)a, N, true, RA); } \
  void __tsan_unaligned_read_write##N(void* a) { access_((uintptr_t)a, N, false, RA); access_((uintptr_t)a, N, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void __tsan_read_range(void* a, size_t n) { rng(a, n, false, RA); }
void __tsan_write_range(void* a, size_t n) { rng(a, n, true, RA); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { rng(s, n, false, RA); rng(d, n, true, RA); return memmove(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { rng(s, n, false, RA); rng(d, n, true, RA); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { rng(d, n, true, RA); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
static inline void at(void* a, bool w, size_t n, void* pc) {
  if (cur < 0) return;
  if (!mc_addressable(a, n)) { report_bad((uintptr_t)a, n, w, pc); return; }
  point_run();
  Thread& t = T[cur];
  acq(t, (uint64_t)a);
  if (w) { hb_rw(t, (uint64_t)a & ~7ULL, 97); rel(t, (uint64_t)a); } else hb_rd(t, (uint64_t)a & ~7ULL, 98);
}
#define ATOM(B, TY) \
  TY __tsan_atomic##B##_load(const volatile TY* a, int) { at((void*)a, false, sizeof(TY), RA); return *a; } \
  void __tsan_atomic##B##_store(volatile TY* a, TY v, int) { at((void*)a, true, sizeof(TY), RA); *a = v; } \
  TY __tsan_atomic##B##_exchange(volatile TY* a, TY v, int) { at((void*)a, true, sizeof(TY), RA); TY o = *a; *a = v; return o; } \
  TY __tsan_atomic##B##_fetch_add(volatile TY* a, TY v, int) { at((void*)a, true, sizeof(TY), RA); TY o = *a; *a = o + v; return o; } \
  TY __tsan_atomic##B##_fetch_sub(volatile TY* a, TY v, int) { at((void*)a, true, sizeof(TY), RA); TY o = *a; *a = o - v; return o; } \
  TY __tsan_atomic##B##_fetch_and(volatile TY* a, TY v, int) { at((void*)a, true, sizeof(TY), RA); TY o = *a; *a = o & v; return o; } \
  TY __tsan_atomic##B##_fetch_or(volatile TY* a, TY v, int) { at((void*)a, true, sizeof(TY), RA); TY o = *a; *a = o | v; return o; } \
  TY __tsan_atomic##B##_fetch_xor(volatile TY* a, TY v, int) { at((void*)a, true, sizeof(TY), RA); TY o = *a; *a = o ^ v; return o; } \
  TY __tsan_atomic##B##_fetch_nand(volatile TY* a, TY v, int) { at((void*)a, true, sizeof(TY), RA); TY o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile TY* a, TY* e, TY v, int, int) { at((void*)a, true, sizeof(TY), RA); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile TY* a, TY* e, TY v, int, int) { at((void*)a, true, sizeof(TY), RA); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  TY __tsan_atomic##B##_compare_exchange_val(volatile TY* a, TY e, TY v, int, int) { at((void*)a, true, sizeof(TY), RA); TY o = *a; if (o == e) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
} // extern "C"

// ------------------------------------------------------------------ symbolisation (only for messages)
static std::unordered_map<uint64_t, std::string> symcache;
static std::string symof(uint64_t pc) {
  if (!pc) return "?";
  if (pc < img_text || pc >= img_etext) return "harness";
  auto it = symcache.find(pc);
  if (it != symcache.end()) return it->second;
  char exe[512]; ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1);
  if (k <= 0) return "?";
  exe[k] = 0;
  char cmd[700]; snprintf(cmd, sizeof cmd, "addr2line -f -s -e %s 0x%llx 2>/dev/null", exe, (unsigned long long)(pc - 1));
  FILE* f = popen(cmd, "r"); std::string s;
  if (f) { char l[400]; while (fgets(l, sizeof l, f)) { l[strcspn(l, "\n")] = 0; if (!s.empty()) s += " "; s += l; } pclose(f); }
  if (s.empty()) { snprintf(cmd, sizeof cmd, "0x%llx", (unsigned long long)pc); s = cmd; }
  return symcache[pc] = s;
}

// ------------------------------------------------------------------ exploration
static mc_setup_f g_setup; static mc_finish_f g_finish;
static std::map<std::string, std::string> args;
extern "C" const char* mc_arg(const char* k, const char* d) { auto it = args.find(k); return it == args.end() ? d : it->second.c_str(); }
extern "C" long mc_argi(const char* k, long d) { auto it = args.find(k); return it == args.end() ? d : atol(it->second.c_str()); }
static size_t high_bump[MAXT];

static void reset_exec() {
  quiet = false;
  memcpy((void*)img_data, snapshot.data(), snapshot.size());
  for (int i = 0; i < MAXT; i++) {
    if (T[i].bump) memset(ashadow + (uint64_t)i * ARENA_PER / 8, 0, T[i].bump / 8 + 8);
    if (T[i].used && T[i].stack) stack_clean(T[i]);
    T[i].bump = 0; T[i].used = false; T[i].finished = false; T[i].tls.clear(); T[i].op = OP_RUN;
  }
  blks.clear();
  // everything not allocated is inaccessible: mark lazily by using 'bad' for untouched arena
  nT = 0; for (int i = 0; i < nP; i++) P[i] = Proc(); nP = 0;
  mutexes.clear(); conds.clear(); objs.clear();
  for (auto* e : eps) delete e;
  eps.clear(); for (auto* p : pipes) delete p;
  pipes.clear(); next_port = 20000; files.clear(); for (auto* m : mfiles) { delete m->name; delete m; } mfiles.clear();
  now_ = mc_cfg.start_time; delayed_writes = 0; steps = 0; env_h = 0x1234; depth = 0; used_dev = 0; failed = false; fail_msg[0] = 0; end_status = -1; cur = -1; rand_state = 1; blocked_counter = 0;
  outcome_h = 0; any_outcome = false; cellgen++;
}
static const char* status_name[] = {"all-exited", "stopped", "deadlock", "no-termination", "pruned", "failed"};
static void on_crash(int sig, siginfo_t* si, void* uc) {
  (void)uc;
  if (cur >= 0 && crash_armed) {
    if (!failed) { failed = true; snprintf(fail_msg, sizeof fail_msg, "crash: signal %d at address %p in thread %d", sig, si->si_addr, cur); }
    sigset_t s; sigemptyset(&s); sigaddset(&s, sig); sigprocmask(SIG_UNBLOCK, &s, nullptr);
    end_status = MC_FAILED;
    longjmp(crash_jmp, 1);
  }
  fprintf(stderr, "MC-INTERNAL-ERROR: crash signal %d at %p outside the code under test\n", sig, si->si_addr);
  _exit(2);
}
static void dump_threads() {
  for (int i = 0; i < nT; i++) if (T[i].used && !T[i].finished) {
    std::string s; Thread& t = T[i];
    if (t.op == OP_LOCK || t.op == OP_COND) { auto it = mutexes.find(t.mutex); if (it != mutexes.end()) s = " mutex owner t" + std::to_string(it->second.owner); }
    mc_logf("thread t%d (%s) blocked in %s%s", i, P[t.proc].name.c_str(), opname[t.op], s.c_str());
  }
}
// run one execution; returns status
static int run_one() {
  reset_exec();
  st_execs++;
  if (setjmp(crash_jmp) == 0) {
    crash_armed = true;
    g_setup();
    if (!failed) {
      int nt = pick(-1);
      if (nt >= 0) { cur = nt; mc_swap(&explorer_sp, T[nt].sp); }
    }
  }
  crash_armed = false;
  cur = -1;
  if (failed) end_status = MC_FAILED;
  if (end_status == MC_PRUNED) { st_pruned++; return end_status; }
  if (mc_verbose) { mc_logf("execution ends: %s", status_name[end_status]); if (end_status == MC_DEADLOCK || end_status == MC_HORIZON) dump_threads(); }
  if (end_status != MC_FAILED) {
    crash_armed = false;
    g_finish(end_status);
    if (failed) end_status = MC_FAILED;
  }
  if (any_outcome) outcomes.insert(outcome_h);
  if (depth > st_max_depth) st_max_depth = depth;
  return end_status;
}
static double wall() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec / 1e9; }
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r; }

extern "C" int mc_main(int argc, char** argv, mc_setup_f setup, mc_finish_f finish) {
  g_setup = setup; g_finish = finish;
  std::string stats, replay, replay_out; double tl = 60; bool det = false; bool first_only = false; std::vector<std::string> known;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() -> const char* { if (i + 1 >= argc) fatal("missing argument"); return argv[++i]; };
    if (a == "--bound") mc_cfg.bound = atoi(nx());
    else if (a == "--time-limit") tl = atof(nx());
    else if (a == "--stats") stats = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--replay-out") replay_out = nx();
    else if (a == "--set") { std::string kv = nx(); auto p = kv.find('='); args[kv.substr(0, p)] = p == std::string::npos ? "1" : kv.substr(p + 1); }
    else if (a == "-v") mc_verbose = true;
    else if (a == "--nocache") mc_cfg.hb_cache = false;
    else if (a == "--norace") mc_cfg.race_points = false;
    else if (a == "--det") det = true;
    else if (a == "--one") first_only = true;
    else if (a == "--known") known.push_back(nx());
    else fatal("unknown argument %s", a.c_str());
  }
  arena_init();
  // config overrides
  for (auto& kv : args) {
    if (kv.first == "spurious") mc_cfg.spurious = atoi(kv.second.c_str());
    if (kv.first == "short_io") mc_cfg.short_io = atoi(kv.second.c_str());
    if (kv.first == "eintr_io") mc_cfg.eintr_io = atoi(kv.second.c_str());
    if (kv.first == "udp_loss") mc_cfg.udp_loss = atoi(kv.second.c_str());
    if (kv.first == "time_dev") mc_cfg.time_deviation = atoi(kv.second.c_str());
    if (kv.first == "clock_points") mc_cfg.clock_read_points = atoi(kv.second.c_str());
    if (kv.first == "tick") mc_cfg.tick = atol(kv.second.c_str());
    if (kv.first == "slow") mc_cfg.slow_proc = atoi(kv.second.c_str());
    if (kv.first == "slow_latency") mc_cfg.slow_latency = atol(kv.second.c_str());
    if (kv.first == "kill") mc_cfg.kill_proc = atoi(kv.second.c_str());
    if (kv.first == "latency") mc_cfg.net_latency = atol(kv.second.c_str());
    for (int i = 0; i < 8; i++) {
      char k1[8], k2[8], k3[12]; snprintf(k1, sizeof k1, "skew%d", i); snprintf(k2, sizeof k2, "step%d", i); snprintf(k3, sizeof k3, "stepat%d", i);
      if (kv.first == k1) mc_cfg.skew[i] = atol(kv.second.c_str());
      if (kv.first == k2) mc_cfg.step[i] = atol(kv.second.c_str());
      if (kv.first == k3) mc_cfg.step_at[i] = atol(kv.second.c_str());
    }
    if (kv.first == "lat_dev") mc_cfg.lat_dev = atol(kv.second.c_str());
    if (kv.first == "sched") mc_cfg.sched_points = atoi(kv.second.c_str());
    if (kv.first == "cores") mc_cfg.cores = atoi(kv.second.c_str());
    if (kv.first == "max_steps") mc_cfg.max_steps = atol(kv.second.c_str());
  }
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_size = 1 << 16; ss.ss_sp = malloc(ss.ss_size); sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); sigaction(SIGILL, &sa, nullptr);
  snapshot.assign((char*)img_data, (char*)img_end);
  double t0 = wall();
  if (!replay.empty()) {
    FILE* f = fopen(replay.c_str(), "r"); if (!f) fatal("cannot open %s", replay.c_str());
    char line[1 << 16];
    while (fgets(line, sizeof line, f)) {
      if (!strncmp(line, "choices:", 8)) { char* p = line + 8; for (char* q = strtok(p, " \n"); q; q = strtok(nullptr, " \n")) { int n = 0, c = atoi(q); char* s = strchr(q, '/'); if (s) n = atoi(s + 1); replay_choices.push_back(c); replay_ns.push_back(n); } }
      if (!strncmp(line, "racy:", 5)) { char* p = line + 5; for (char* q = strtok(p, " \n"); q; q = strtok(nullptr, " \n")) { uint32_t pc = (uint32_t)strtoul(q, nullptr, 16); if (pc < racy.size()) racy[pc] = 1; } }
      if (!strncmp(line, "arg:", 4)) { line[strcspn(line, "\n")] = 0; std::string kv = line + 5; auto p = kv.find('='); args[kv.substr(0, p)] = kv.substr(p + 1); }
      if (!strncmp(line, "bound:", 6)) cur_bound = atoi(line + 6);
    }
    fclose(f);
    replaying = true; mc_cfg.hb_cache = false;
    int st = run_one();
    printf("replay: %s%s%s\n", status_name[st], failed ? ": " : "", fail_msg);
    return failed ? 1 : 0;
  }
  int completed = -1; bool capped = false; int restarts = 0; std::vector<std::string> samples; double last_print = t0;
  bool violation = false; uint64_t states_total = 0;
  std::vector<uint64_t> execs_by_bound;
  for (int b = 0; b <= mc_cfg.bound && !capped && !violation;) {
    cur_bound = b; cache.clear(); path.clear(); new_racy = false;
    uint64_t e0 = st_execs; bool restart = false;
    for (;;) {
      int st = run_one();
      if (st == MC_FAILED) {
        bool kn = false;
        for (auto& k : known) if (strstr(fail_msg, k.c_str())) { counters["known: " + k]++; kn = true; break; }
        if (!kn) { violation = true; break; }
        st = MC_STOPPED;
      }
      if (det && st != MC_PRUNED) { // determinism self check
        uint64_t h1 = signature(0); int64_t s1 = steps; auto savep = path; replaying = true; replay_choices.clear(); replay_ns.clear(); for (auto& c : path) { replay_choices.push_back(c.c); replay_ns.push_back(c.n); }
        bool hc = mc_cfg.hb_cache; mc_cfg.hb_cache = false; st_execs--; run_one(); mc_cfg.hb_cache = hc; replaying = false; path = savep;
        if (signature(0) != h1 || steps != s1) fatal("execution is not deterministic under replay (steps %lld vs %lld)", (long long)s1, (long long)steps);
      }
      if (new_racy) { restart = true; if (st_execs - e0 > 2000 || b == 0) break; }
      if (wall() - t0 > tl) { capped = true; break; }
      if (first_only) { capped = true; break; }
      if (!next_path()) break;
    }
    if (violation) break;
    if (restart && !capped) { for (uint32_t pc : racy_list) racy[pc] = 1; restarts++; continue; }
    if (restart) for (uint32_t pc : racy_list) racy[pc] = 1;
    states_total = cache.used;
    execs_by_bound.push_back(st_execs - e0);
    if (!capped) { completed = b; b++; }
  }
  (void)last_print;
  int rc = 0; std::string vmsg;
  if (violation) {
    vmsg = fail_msg;
    // confirm by replay, twice, then minimise by dropping deviations greedily
    std::vector<Choice> vp = path; size_t vd = depth;
    auto try_replay = [&](const std::vector<int>& ch, const std::vector<int>& ns) { replay_choices = ch; replay_ns = ns; replaying = true; bool hc = mc_cfg.hb_cache; mc_cfg.hb_cache = false; run_one(); mc_cfg.hb_cache = hc; replaying = false; return failed; };
    std::vector<int> ch, ns; for (size_t i = 0; i < vp.size() && i < vd; i++) { ch.push_back(vp[i].c); ns.push_back(vp[i].n); }
    for (int k = 0; k < 2; k++) { if (!try_replay(ch, ns)) fatal("violation did not replay: %s", vmsg.c_str()); if (vmsg != fail_msg) fatal("violation changed on replay: '%s' then '%s'", vmsg.c_str(), fail_msg); }
    while (!ch.empty() && ch.back() == 0) { ch.pop_back(); ns.pop_back(); }
    if (!replay_out.empty()) {
      FILE* f = fopen(replay_out.c_str(), "w");
      if (f) {
        fprintf(f, "scenario: %s\nviolation: %s\nbound: %d\n", mc_cfg.name, vmsg.c_str(), cur_bound);
        char exe[512]; ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[k > 0 ? k : 0] = 0;
        fprintf(f, "exe: %s\n", exe);
        for (auto& kv : args) fprintf(f, "arg: %s=%s\n", kv.first.c_str(), kv.second.c_str());
        fprintf(f, "choices:"); for (size_t i = 0; i < ch.size(); i++) fprintf(f, " %d/%d", ch[i], ns[i]); fprintf(f, "\n");
        fprintf(f, "racy:"); for (uint32_t pc : racy_list) if (racy[pc] == 1) fprintf(f, " %x", pc); fprintf(f, "\n");
        // readable log
        fprintf(f, "log:\n"); fflush(f);
        fflush(stdout); int save = dup(1); dup2(fileno(f), 1); mc_verbose = true; try_replay(ch, ns); fflush(stdout); dup2(save, 1); close(save); mc_verbose = false;
        fclose(f);
      }
    }
    printf("mc: VIOLATION in %s: %s\n", mc_cfg.name, vmsg.c_str());
    rc = 1;
  }
  double dt = wall() - t0;
  std::string js = "{";
  auto kv = [&](const char* k, const std::string& v) { if (js.size() > 1) js += ","; js += "\"" + std::string(k) + "\":" + v; };
  kv("scenario", "\"" + jesc(mc_cfg.name) + "\"");
  kv("executions", std::to_string(st_execs)); kv("pruned", std::to_string(st_pruned)); kv("complete_executions", std::to_string(st_execs - st_pruned));
  kv("states", std::to_string(states_total)); kv("transitions", std::to_string(total_steps)); kv("choice_points", std::to_string(st_choice_points));
  kv("bound_requested", std::to_string(mc_cfg.bound)); kv("bound_completed", std::to_string(completed)); kv("capped", capped ? "true" : "false");
  kv("max_choice_depth", std::to_string(st_max_depth)); kv("distinct_outcomes", std::to_string(outcomes.size())); kv("racy_sites", std::to_string(racy_list.size())); kv("restarts", std::to_string(restarts));
  kv("wall_s", std::to_string(dt));
  for (auto& n : notes) kv(n.first.c_str(), std::to_string(n.second));
  { std::string c = "{"; for (auto& n : counters) { if (c.size() > 1) c += ","; c += "\"" + jesc(n.first) + "\":" + std::to_string(n.second); } kv("counters", c + "}"); }
  if (violation) kv("violation", "\"" + jesc(vmsg) + "\"");
  js += "}";
  if (!stats.empty()) { FILE* f = fopen(stats.c_str(), "w"); if (f) { fprintf(f, "%s\n", js.c_str()); fclose(f); } }
  else printf("%s\n", js.c_str());
  if (mc_verbose || getenv("MC_RACY")) for (uint32_t pc : racy_list) printf("racy: %s\n", symof(pc + img_text).c_str());
  return rc;
}
