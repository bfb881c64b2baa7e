#include "mc.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#define L(X) X(race) X(locked) X(dead) X(pc) X(lost) X(sb) X(uaf) X(oob) X(df) X(leak) X(tw) X(rmw3)
#define D(n) int sut_##n(void*);
L(D)
static int p; static const char* prog;
static void setup(void) {
#define S(n) if (!strcmp(prog, #n)) p = mc_spawn(#n, sut_##n, 0);
  L(S)
}
static void finish(int st) {
  int code = -1; mc_proc_exited(p, &code);
  if (st == 2) mc_fail("deadlock");
  if (mc_live_allocs(p)) mc_fail("leak");
  mc_outcome(code); char b[32]; snprintf(b, 32, "code%d", code); mc_count(b);
}
int main(int c, char** v) { prog = getenv("PROG"); mc_cfg.name = prog; return mc_main(c, v, setup, finish); }
