// Reactions executing in parallel set channels of one input multiport, under every schedule.
#include "mc.h"
#include <stdlib.h>
#include <string.h>
extern "C" { void mp_init(int, int, int, int, int); void mp_set(int, int); void mp_step(); int mp_present(int, int); int mp_iterate(int, int*, int); extern int mp_workers; }
#define W 8
static int nth, nops, width, cap, op[4][4];
static void* th(void* a) { int t = (int)(long)a; for (int i = 0; i < nops; i++) if (op[t][i] >= 0) mp_set(0, op[t][i]); return nullptr; }
static int prog(void*) {
  mp_workers = 1; mp_init(width, cap, 1, 1, 0);
  for (int tag = 0; tag < 2; tag++) {
    mp_step();
    bool set[W] = {0};
    if (tag == 0) {
      unsigned long id[4];
      for (long i = 0; i < nth; i++) mc_pthread_create(&id[i], nullptr, th, (void*)i);
      for (int i = 0; i < nth; i++) mc_pthread_join(id[i], nullptr);
      for (int i = 0; i < nth; i++) for (int k = 0; k < nops; k++) if (op[i][k] >= 0) set[op[i][k]] = true;
    } else { mp_set(0, width - 1); set[width - 1] = true; }
    for (int rep = 0; rep < 2; rep++) {
      int out[W + 4], n = mp_iterate(0, out, width + 3), k = 0;
      for (int c = 0; c < width; c++) if (set[c]) { if (out[k] != c) mc_fail("tag %d: step %d of the iteration yields %d instead of %d", tag, k, out[k], c); k++; }
      for (; k < n; k++) if (out[k] >= 0) mc_fail("tag %d: step %d of the iteration yields %d after the last present channel", tag, k, out[k]);
    }
    for (int c = 0; c < width; c++) if (mp_present(0, c) != set[c]) mc_fail("tag %d: channel %d is %s", tag, c, set[c] ? "absent" : "present");
  }
  return 0;
}
static int proc;
static void setup() {
  nth = (int)mc_argi("threads", 2); nops = (int)mc_argi("ops", 2);
  // every channel belongs to one thread, as every output belongs to one reactor
  width = nth * 2; cap = mc_choose(width + 2, true, "capacity") - 1;
  for (int i = 0; i < nth; i++) for (int k = 0; k < nops; k++) op[i][k] = mc_choose(3, true, "channel") * nth + i;
  for (int i = 0; i < nth; i++) for (int k = 0; k < nops; k++) if (op[i][k] >= 2 * nth) op[i][k] = -1;
  proc = mc_spawn("prog", prog, nullptr);
}
static void finish(int status) { int code = -1; if (status == MC_DEADLOCK || status == MC_HORIZON) mc_fail("deadlock"); else if (!mc_proc_exited(proc, &code) || code) mc_fail("abnormal exit"); }
int main(int argc, char** argv) { mc_cfg.name = "ports"; return mc_main(argc, argv, setup, finish); }
