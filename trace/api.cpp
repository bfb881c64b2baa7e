// Threads of every kind record events through the tracing API, under every schedule; the file is read back.
#include "mc.h"
#include "lftread.h"
#include <stdlib.h>
#include <map>
extern "C" { int tg_capacity(); int tg_objects(); void tg_init(char*, int, int); void tg_id(); void tg_start(int64_t); void tg_reg(void*, void*, int, char*); void tg_point(int, void*, int64_t, uint32_t, int, int, int, int64_t, void*, int64_t); void tg_stop(); }
#define TH 4
enum { MANAGED, UNMANAGED };
static int nth, nops, cap, kind[TH + 1], pre[TH + 1], done[TH + 1], nobj, regs; static bool registrar, early;
static const int64_t START = 5000000000;
static void* OBJ(int k) { return (void*)(uintptr_t)(0x100000 + k * 64); }
static void* TRG(int k) { return k % 3 == 1 ? (void*)(uintptr_t)(0x900000 + k * 64) : nullptr; }
static char* desc(int k) { static char b[2000][24]; if (k >= 2000) abort(); snprintf(b[k], 24, k % 5 == 3 ? "%.0d" : "object %d", k % 5 == 3 ? 0 : k); return b[k]; }
static LftRec want(int t, int k) {
  LftRec r; r.type = (t * 7 + k) % 52; r.ptr = (uint64_t)OBJ((t + k) % 5); r.src = t; r.dst = k; r.lt = k % 4 == 3 ? INT64_MIN : START + k / 3; r.m = k % 3 == 2 ? 0xfffffff0u + (k & 7) : (uint32_t)k; r.pt = START + k; r.trig = (uint64_t)TRG(k % 5); r.extra = ((int64_t)(k + 1) << 33) - t; return r;
}
static void point(int t) { LftRec r = want(t, done[t]); done[t]++; tg_point(r.type, (void*)r.ptr, r.lt, r.m, kind[t] == UNMANAGED ? -1 : t, r.src, r.dst, r.pt, (void*)r.trig, r.extra); }
static void* th(void* a) {
  int t = (int)(long)a; if (kind[t] == MANAGED) tg_id();
  if (kind[t] == MANAGED) for (int i = 0; i < pre[t]; i++) point(t);
  mc_touch(&nth, false);
  if (registrar && t == 1) { tg_reg(OBJ(nobj), TRG(nobj), nobj % 3, desc(nobj)); regs = 1; }
  for (int i = 0; i < nops; i++) point(t);
  return nullptr;
}
static void* filler(void*) { for (int t = 1; t <= nth; t++) if (kind[t] == UNMANAGED) for (int i = 0; i < pre[t]; i++) point(t); return nullptr; }
static int prog(void*) {
  tg_id(); int managed = 1; for (int t = 1; t <= nth; t++) managed += kind[t] == MANAGED;
  tg_init((char*)"prog", 3, managed);
  for (int k = 0; k < nobj; k++) tg_reg(OBJ(k), TRG(k), k % 3, desc(k));
  if (early) for (int i = 0; i < 2; i++) point(0);
  tg_start(START);
  unsigned long id[TH + 1], f;
  mc_quiet(true); mc_pthread_create(&f, nullptr, filler, nullptr); mc_pthread_join(f, nullptr); mc_quiet(false);
  for (int i = 0; i < pre[0]; i++) point(0);
  for (long i = 1; i <= nth; i++) mc_pthread_create(&id[i], nullptr, th, (void*)i);
  for (int i = 0; i < nops; i++) point(0);
  for (int i = 1; i <= nth; i++) mc_pthread_join(id[i], nullptr);
  tg_stop();
  return 0;
}
static int p;
static void setup() {
  nth = (int)mc_argi("threads", 2); cap = tg_capacity(); memset(done, 0, sizeof done); regs = 0; memset(kind, 0, sizeof kind); memset(pre, 0, sizeof pre);
  nops = 1 + mc_choose((int)mc_argi("ops", 2), true, "records");
  int full = (int)mc_argi("full", 1), other = 0;
  // threads are interchangeable: sorted by kind and number of records before
  for (int t = 1, lo = 0; t <= nth; t++) {
    int c = lo + mc_choose(8 - lo, true, "thread"); lo = c; kind[t] = c / 4; static const int off[] = {0, -2, -1, 0};
    pre[t] = c % 4 == 0 ? 0 : cap + off[c % 4];
    if (kind[t] == UNMANAGED && other++) pre[t] = 0; // the unmanaged threads have one buffer
  }
  int c = mc_choose(4, true, "main"); pre[0] = c == 0 ? 0 : c == 1 ? cap - 1 : c == 2 ? cap : 2 * cap + 1;
  if (!full && c == 3) pre[0] = cap - 2;
  int o = mc_choose(4, true, "objects"); nobj = o == 0 ? 0 : o == 3 ? tg_objects() - 1 : 5; registrar = o != 1; early = o == 2;
  if (early && pre[0]) pre[0] -= 2;
  p = mc_spawn("prog", prog, nullptr);
}
static void finish(int st) {
  if (st == MC_DEADLOCK || st == MC_HORIZON) { mc_fail("tracing blocks the program"); return; }
  int code; if (!mc_proc_exited(p, &code) || code) { mc_fail("the program exits with code %d: %s", code, mc_output(p)); return; }
  size_t n; const unsigned char* d = mc_file("prog_3.lft", &n); if (!d) { mc_fail("there is no trace file"); return; }
  Lft f; lft_read(d, n, f);
  if (!f.err.empty()) { mc_fail("the trace file cannot be read: %s", f.err.c_str()); return; }
  if (f.start != START) mc_fail("the start time is %lld", (long long)f.start);
  bool flushed = false; for (int t = 0; t <= nth; t++) flushed |= done[t] > cap; // then objects may have been registered too late
  int shared = 0; for (int t = 1; t <= nth; t++) if (kind[t] == UNMANAGED) shared += done[t]; flushed |= shared > cap;
  if ((int)f.obj.size() < nobj || (int)f.obj.size() > nobj + regs || (!flushed && (int)f.obj.size() != nobj + regs)) { mc_fail("%d objects are registered, but the file has %zu", nobj + regs, f.obj.size()); return; }
  for (size_t k = 0; k < f.obj.size(); k++) if (f.obj[k].ptr != (uint64_t)OBJ(k) || f.obj[k].trig != (uint64_t)TRG(k) || f.obj[k].type != (int)k % 3 || f.obj[k].d != desc(k)) mc_fail("object %zu is not the one registered", k);
  int next[TH + 1] = {0};
  for (auto& r : f.rec) {
    int t = r.src; if (t < 0 || t > nth) { mc_fail("a record was never recorded"); return; }
    if (r.dst != next[t]) { mc_fail("thread %d (%s): record %d is followed by record %d", t, kind[t] ? "unmanaged" : "managed", next[t] - 1, r.dst); return; }
    LftRec w = want(t, next[t]++);
    if (r.type != w.type || r.ptr != w.ptr || r.lt != w.lt || r.m != w.m || r.pt != w.pt || r.trig != w.trig || r.extra != w.extra) { mc_fail("thread %d: the fields of record %d differ from those recorded", t, next[t] - 1); return; }
  }
  for (int t = 0; t <= nth; t++) if (next[t] != done[t]) { mc_fail("thread %d (%s) recorded %d events, but the file has %d", t, kind[t] ? "unmanaged" : "managed", done[t], next[t]); return; }
  uint64_t h = 0; for (size_t b : f.blocks) h = mc_hash(h, b); mc_outcome(h);
}
int main(int c, char** v) { mc_cfg.name = "trace"; mc_keep_output = true; return mc_main(c, v, setup, finish); }
