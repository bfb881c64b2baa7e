// Federations: a base program whose reactors are distributed over federates.
#pragma once
#include "lfh.h"
struct Link { int src, dst; int64_t delay; bool physical; std::vector<int> lens; int idx_out, idx_in; };
struct FB {
  B b; int fed[LS_MAXR]; std::vector<Link> links; int n;
  explicit FB(ls_prog& p) : b(p), n(2) { memset(fed, 0, sizeof fed); }
  int reactor(int f) { int r = b.reactor(); fed[r] = f; if (f + 1 > n) n = f + 1; return r; }
  void link(int s, int d, int64_t delay = INT64_MIN, bool physical = false, std::vector<int> lens = {}) { links.push_back({s, d, delay, physical, lens, 0, 0}); }
};
struct FOpt {
  bool stop_requested = false; // the stop tag is found by agreement
  int killed = -1;             // process that may be killed: 0 the coordinator, 1.. federates
  int64_t sta[3] = {0, 0, 0}, staa[3] = {0, 0, 0};
  bool decentralized = false;
  int64_t clock_step = 0;      // federate 0's clock is set by this much during the execution; the error may be so large then and must have shrunk to clock_rest in the end
  int64_t clock_rest = 0;
  bool sloppy = false;         // only wire contents are judged
};
extern FOpt fopt;
typedef void (*fscen_f)(FB& f);
void add_fscen(const char* name, fscen_f f);
struct RegF { RegF(const char* n, fscen_f f) { add_fscen(n, f); } };
#define FSCEN(n) static void fscen_##n(FB& f); static RegF regf_##n(#n, fscen_##n); static void fscen_##n(FB& f)
