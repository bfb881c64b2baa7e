#include "kit.h"
extern "C" int lf_gen_main(void*);
ls_prog prog; static ls_graph graph;
std::vector<Ev> ev; std::vector<std::vector<int64_t>> handles; int64_t g_start; std::map<void*, int> payloads; std::function<void(int, int)> on_begin, on_end; int bad;
static std::recursive_mutex mx; static int seq; static int cur[LS_MAXX]; static int nth[LS_MAXX]; static volatile int flags[8];
static int64_t now() { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); return t.tv_sec * 1000000000LL + t.tv_nsec; }
#define L std::lock_guard<std::recursive_mutex> lk(mx)
extern "C" {
void mc_advance(int64_t ns) { int64_t e = now() + ns; while (now() < e) usleep(200); }
void mc_sleep_until(int64_t t) { while (now() < t) usleep(100); }
int64_t mc_now(void) { return now(); }
void mc_yield(void) {}
const ls_prog* hx_prog(int) { return &prog; }
const ls_graph* hx_graph(int) { return &graph; }
void hx_start(int, int64_t s, int) { g_start = s; }
void hx_begin(int, int x, int kind, int64_t t, uint32_t m) { int n; { L; cur[x] = (int)ev.size(); ev.push_back({x, kind, t, m, now() - g_start, {}, {}, false}); n = nth[x]; } if (on_begin) on_begin(x, n); }
void hx_tag(int, int x, int64_t t, uint32_t m) { L; if (ev[cur[x]].t != t || ev[cur[x]].m != m) { fprintf(stderr, "tag changed during reaction\n"); bad++; } }
void hx_read(int, int x, int, bool p, bool has, int v) { L; ev[cur[x]].present.push_back(p); ev[cur[x]].value.push_back(p && has ? v : 0); }
void hx_end(int, int x, int, uint64_t) { int n; { L; ev[cur[x]].ended = true; n = nth[x]++; } if (on_end) on_end(x, n); }
int hx_async_begin(int, int, int64_t) { L; return ++seq; }
void hx_async_end(int, int a, int, int h) { L; handles.push_back({-1, a, h}); }
void hx_stop_called(int, int, bool) {}
void hx_sched(int, int x, int a, int64_t, int h) { L; handles.push_back({x, a, h}); }
void hx_payload(int, void* p, int what) { L; if (what == 3) return; if (what == 0 || what == 2) payloads[p] = 1; else if (!payloads.count(p) || !payloads[p]) { fprintf(stderr, "payload used after release\n"); bad++; } else if (what == 1) payloads[p] = 0; }
void hx_wd(int, int w, int what, int64_t) { L; ev.push_back({100 + w, what, 0, 0, now() - g_start, {}, {}, true}); }
void hx_flag(int, int f, int wait) { if (wait) while (!flags[f]) usleep(100); else flags[f] = 1; }
void hx_intended(int, int, int, int64_t, uint32_t) {}
void hx_wire(int, int, int, uint64_t, size_t, int64_t, uint32_t) {}
void hx_phys(int, int, int64_t) {}
void hx_sizes(int, size_t, size_t) {}
void hx_note(int, const char* w, int64_t v) { if (!strcmp(w, "payload corrupted")) { fprintf(stderr, "payload corrupted\n"); bad++; } (void)v; }
void hx_barrier(int, int, int64_t, uint32_t, int64_t, uint32_t) {}
void hx_exact(int, int, int64_t, uint32_t, int64_t, uint32_t) {}
}
int run() { alarm(20); ls_analyse(&prog, &graph); int r = lf_gen_main(nullptr); L; return r; }
int count(int x) { int n = 0; for (auto& e : ev) n += e.rx == x; return n; }
void show() { for (auto& e : ev) { fprintf(stderr, "x%d kind %d at (%lld,%u) physical %lld:", e.rx, e.kind, (long long)e.t, e.m, (long long)e.phys); for (size_t i = 0; i < e.present.size(); i++) fprintf(stderr, " %s%d", e.present[i] ? "" : "-", e.value[i]); fprintf(stderr, "\n"); } }
