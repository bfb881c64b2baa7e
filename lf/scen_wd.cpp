#include "lfh.h"
// watchdogs
#define MS 1000000LL
static int64_t pick(std::initializer_list<int64_t> v, const char* l) { return v.begin()[mc_choose((int)v.size(), true, l)]; }
static int WD(B& b, int r, int64_t timeout, int action, std::initializer_list<ls_stmt> body = {}) {
  ls_watchdog& w = b.p.wd[b.p.nwd]; w.reactor = (int8_t)r; w.timeout = timeout; w.action = (int8_t)action; w.nbody = 0; for (auto& s : body) w.body[w.nbody++] = s; return b.p.nwd++;
}
static ls_stmt WS(int w, int64_t extra = 0, int guard = LG_ALWAYS, int garg = 0) { return S(LO_WDSTART, w, extra, guard, garg); }
static ls_stmt WX(int w, int guard = LG_ALWAYS, int garg = 0) { return S(LO_WDSTOP, w, 0, guard, garg); }
// every sequence of starts and stops at the firings of a timer
SCEN(gen_wd) {
  int n = (int)mc_argi("steps", 4); int64_t to = pick({7, 10}, "timeout");
  int r = b.reactor(), t = b.timer(r, 0, 5 * MS), a = b.physical(r);
  int w = WD(b, r, to * MS, a);
  int x = b.rx(r, {TIMER(t)});
  ls_reaction& rx = b.p.reaction[x];
  for (int k = 0; k < n; k++) switch (mc_choose(4, true, "operation")) {
    case 1: rx.body[rx.nbody++] = WS(w, 0, LG_N_EQ, k); break;
    case 2: rx.body[rx.nbody++] = WS(w, 13 * MS, LG_N_EQ, k); break;
    case 3: rx.body[rx.nbody++] = WX(w, LG_N_EQ, k); break;
    }
  b.rx(r, {ACTION(a)}); b.rx(r, {SHUTDOWN()});
  b.p.keepalive = true; b.p.timeout = 36 * MS;
}
// the handler restarts its watchdog a few times, or forever
SCEN(wd_again) {
  int64_t extra = pick({5, 12}, "extra") * MS;
  int r = b.reactor(), a = b.physical(r), w = WD(b, r, 10 * MS, a, {WS(0, extra, LG_N_LT, 2)});
  b.rx(r, {STARTUP()}, {}, {WS(w)}); b.rx(r, {ACTION(a)}); b.rx(r, {SHUTDOWN()});
  b.p.keepalive = true; b.p.timeout = 44 * MS;
}
// the handler's action restarts or stops
SCEN(wd_action) {
  int r = b.reactor(), a = b.physical(r, 3 * MS), w = WD(b, r, 10 * MS, a), t = b.timer(r, 4 * MS, 9 * MS);
  b.rx(r, {STARTUP()}, {}, {WS(w)}); b.rx(r, {ACTION(a)}, {}, {WS(w, 2 * MS)}); b.rx(r, {TIMER(t)}, {}, {WX(w, LG_N_EQ, 2)}); b.rx(r, {SHUTDOWN()});
  b.p.keepalive = true; b.p.timeout = 50 * MS;
}
// reactions of the watchdog's and another reactor take time while it expires
SCEN(wd_busy) {
  int64_t wt = pick({10, 12}, "timeout") * MS, adv = pick({3, 8}, "time taken") * MS;
  int r = b.reactor(), t = b.timer(r, 0, 5 * MS), a = b.physical(r), w = WD(b, r, wt, a, {S(LO_ADVANCE, 0, 1 * MS)});
  int q = b.reactor(), u = b.timer(q, 0, 10 * MS);
  b.rx(r, {STARTUP()}, {}, {WS(w)}); b.rx(r, {TIMER(t)}, {}, {S(LO_ADVANCE, 0, adv, LG_N_EQ, 2), WS(w, 0, LG_N_EQ, 3)}); b.rx(r, {ACTION(a)});
  b.rx(q, {TIMER(u)}, {}, {S(LO_ADVANCE, 0, adv, LG_N_EQ, 1)}); b.rx(r, {SHUTDOWN()});
  b.p.keepalive = true; b.p.timeout = 30 * MS;
}
// it expires when the program ends
SCEN(wd_end) {
  int k = mc_choose(5, true, "kind"); int64_t to = pick({9, 10, 11}, "timeout") * MS;
  int r = b.reactor(), a = b.physical(r), w = WD(b, r, 10 * MS, a);
  b.rx(r, {STARTUP()}, {}, {WS(w)}); b.rx(r, {ACTION(a)});
  if (k == 0) b.rx(r, {SHUTDOWN()});
  if (k == 1) b.rx(r, {SHUTDOWN()}, {}, {WS(w)});
  if (k == 2) b.rx(r, {SHUTDOWN()}, {}, {WX(w)});
  if (k == 3) b.rx(r, {SHUTDOWN()}, {}, {WX(w), WS(w, -10 * MS)});
  if (k == 4) b.rx(r, {SHUTDOWN()}, {}, {WS(w, -10 * MS)});
  b.p.keepalive = true; b.p.timeout = to;
}
// never started, or stopped without being started
SCEN(wd_unused) {
  int k = mc_choose(3, true, "kind");
  int r = b.reactor(), a = b.physical(r), t = b.timer(r, 0, 5 * MS), w = WD(b, r, 10 * MS, a);
  b.rx(r, {TIMER(t)}, {}, k == 0 ? std::initializer_list<ls_stmt>{} : k == 1 ? std::initializer_list<ls_stmt>{WX(w)} : std::initializer_list<ls_stmt>{WS(w), WX(w)}); b.rx(r, {ACTION(a)}); b.rx(r, {SHUTDOWN()});
  b.p.keepalive = true; b.p.timeout = 12 * MS;
}
// the handler asks for the program to stop
SCEN(wd_stop) {
  int r = b.reactor(), t = b.timer(r, 0, pick({5, 10}, "period") * MS), w = WD(b, r, 10 * MS, -1, {S(LO_STOP)});
  b.rx(r, {STARTUP()}, {}, {WS(w)}); b.rx(r, {TIMER(t)}); b.rx(r, {SHUTDOWN()});
  b.p.keepalive = true;
}
// two watchdogs of one reactor that expire close to each other and start or stop one another
SCEN(wd_pair) {
  int k = mc_choose(3, true, "kind"); int64_t d = pick({10, 11}, "second timeout") * MS;
  int r = b.reactor(), a = b.physical(r), c = b.physical(r);
  int w = WD(b, r, 10 * MS, a), v = WD(b, r, d, c);
  if (k == 1) { b.p.wd[w].nbody = 1; b.p.wd[w].body[0] = WS(v, 3 * MS); }
  if (k == 2) { b.p.wd[v].nbody = 1; b.p.wd[v].body[0] = WS(w, 3 * MS); }
  b.rx(r, {STARTUP()}, {}, {WS(w), WS(v)}); b.rx(r, {ACTION(a)}, {}, {WX(v, LG_N_EQ, 1)}); b.rx(r, {ACTION(c)}); b.rx(r, {SHUTDOWN()});
  b.p.keepalive = true; b.p.timeout = 22 * MS + (mc_choose(2, true, "end") ? -12 * MS : 0);
}
// watchdogs of two reactors
SCEN(wd_two) {
  int r = b.reactor(), q = b.reactor(), a = b.physical(r), c = b.physical(q), t = b.timer(r, 0, 5 * MS), u = b.timer(q, 0, 7 * MS);
  int w = WD(b, r, 10 * MS, a), v = WD(b, q, pick({10, 14}, "timeout") * MS, c);
  b.rx(r, {TIMER(t)}, {}, {WS(w, 0, LG_N_EQ, 0), WX(w, LG_N_EQ, 2)}); b.rx(r, {ACTION(a)}); b.rx(q, {TIMER(u)}, {}, {WS(v, 0, LG_N_LT, 2)}); b.rx(q, {ACTION(c)}); b.rx(r, {SHUTDOWN()}); b.rx(q, {SHUTDOWN()});
  b.p.keepalive = true; b.p.timeout = 24 * MS;
}
