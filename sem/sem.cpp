// Every small program of semaphore operations under every schedule.
#include "mc.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
extern "C" {
typedef struct lf_semaphore_t lf_semaphore_t;
lf_semaphore_t* lf_semaphore_new(size_t); void lf_semaphore_release(lf_semaphore_t*, size_t); void lf_semaphore_acquire(lf_semaphore_t*); void lf_semaphore_wait(lf_semaphore_t*); void lf_semaphore_destroy(lf_semaphore_t*);
}
enum { ACQ, REL1, REL2, WAIT, NOP };
static const char* nm[] = {"acquire", "release(1)", "release(2)", "wait", "-"};
#define TH 4
static int nth, nops, op[TH][4], init0; static lf_semaphore_t* s; static int in[TH + 1]; // operation in progress, NOP when none
static long rel_started, rel_done, acq_done, could_wait[TH + 1]; static int finished; static bool probing, extra; static int ctr;
static void seen() { for (int i = 0; i <= TH; i++) if (in[i] == WAIT && init0 + rel_started - acq_done > 0) could_wait[i] = 1; }
static void begin(int t, int o) { mc_touch(&ctr, true); in[t] = o; could_wait[t] = 0; if (o == REL1) rel_started++; if (o == REL2) rel_started += 2; seen(); }
static void end(int t, int o) {
  mc_touch(&ctr, true);
  if (o == ACQ) { acq_done++; if (acq_done > init0 + rel_started) mc_fail("acquisition number %ld succeeds though only %ld permits were ever made available", acq_done, init0 + rel_started); }
  if (o == WAIT && !could_wait[t]) mc_fail("waiting returned though no permit was available at any time during the wait");
  if (o == REL1) rel_done++;
  if (o == REL2) rel_done += 2;
  in[t] = NOP; seen();
}
static void perform(int t, int o) {
  begin(t, o);
  switch (o) { case ACQ: lf_semaphore_acquire(s); break; case REL1: lf_semaphore_release(s, 1); break; case REL2: lf_semaphore_release(s, 2); break; case WAIT: lf_semaphore_wait(s); break; }
  end(t, o);
}
static void* th(void* a) { int t = (int)(long)a; for (int i = 0; i < nops; i++) if (op[t][i] != NOP) perform(t, op[t][i]); mc_touch(&ctr, true); finished++; return nullptr; }
static void* ex(void*) { perform(TH, ACQ); return nullptr; }
static int prog(void*) {
  s = lf_semaphore_new((size_t)init0);
  unsigned long id[TH];
  for (long i = 0; i < nth; i++) mc_pthread_create(&id[i], nullptr, th, (void*)i);
  for (int i = 0; i < nth; i++) mc_pthread_join(id[i], nullptr);
  // what is left can be taken, and no more
  long left = init0 + rel_done - acq_done; probing = true;
  for (long i = 0; i < left; i++) perform(TH, ACQ);
  if (mc_argi("extra", 1) && mc_choose(2, true, "take one more")) {
    extra = true; unsigned long e; mc_pthread_create(&e, nullptr, ex, nullptr); mc_pthread_join(e, nullptr);
    mc_fail("one more acquisition succeeds though all permits are taken");
  }
  lf_semaphore_destroy(s);
  return 0;
}
static int p;
static void setup() {
  nth = (int)mc_argi("threads", 2); nops = (int)mc_argi("ops", 2);
  memset(op, 0, sizeof op); for (auto& x : in) x = NOP; rel_started = rel_done = acq_done = 0; finished = 0; probing = extra = false;
  int kinds = (int)mc_argi("kinds", 5);
  init0 = mc_choose((int)mc_argi("init", 2) + 1, true, "initial count");
  // sequences of up to nops operations; threads are interchangeable, so only sorted programs
  static int seq[400][4]; int n = 0, tot = 1; for (int i = 0; i < nops; i++) tot *= kinds;
  for (int c = 0; c < tot; c++) { int x = c, v[4] = {NOP, NOP, NOP, NOP}; bool ok = true, e = false; for (int i = 0; i < nops; i++) { v[i] = x % kinds; x /= kinds; if (v[i] == NOP) e = true; else if (e) ok = false; } if (ok) memcpy(seq[n++], v, sizeof v); }
  for (int t = 0, lo = 0; t < nth; t++) { lo += mc_choose(n - lo, true, "operations of a thread"); memcpy(op[t], seq[lo], sizeof seq[0]); }
  p = mc_spawn("prog", prog, nullptr);
}
static void finish(int st) {
  char b[400]; int n = 0; for (int t = 0; t < nth; t++) { n += snprintf(b + n, sizeof b - n, " | "); for (int i = 0; i < nops; i++) n += snprintf(b + n, sizeof b - n, "%s ", nm[op[t][i]]); }
  if (st == MC_DEADLOCK) {
    long avail = init0 + rel_done - acq_done;
    if (avail > 0 && !extra) for (int t = 0; t <= TH; t++) if (in[t] == ACQ || in[t] == WAIT) mc_fail("thread %d stays blocked in %s although %ld permits are available (initially %d;%s)", t, nm[in[t]], avail, init0, b);
    for (int t = 0; t <= TH; t++) if (in[t] == REL1 || in[t] == REL2) mc_fail("thread %d is blocked while releasing (%s)", t, b);
    if (probing && !extra) mc_fail("a permit that was released cannot be acquired (initially %d;%s)", init0, b);
  } else if (st == MC_ALL_EXITED) {
    if (mc_live_allocs(p)) mc_fail("the semaphore is not freed");
  } else if (st == MC_HORIZON) mc_fail("no termination (%s)", b);
  mc_outcome(mc_hash((uint64_t)(acq_done * 100 + rel_done), (uint64_t)st * 10 + finished));
}
int main(int c, char** v) { mc_cfg.name = "semaphore"; mc_cfg.deadlock_ok = true; return mc_main(c, v, setup, finish); }
