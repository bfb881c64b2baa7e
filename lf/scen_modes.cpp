#include "lfh.h"
// modal reactors
#define MS 1000000LL
static int64_t pick(std::initializer_list<int64_t> v, const char* l) { return v.begin()[mc_choose((int)v.size(), true, l)]; }
static ls_stmt MODE(int m, int how, int guard = LG_ALWAYS, int garg = 0) { return S(LO_MODE, m, how, guard, garg); }
// two modes that switch by a timer outside of them; timers, an action and all kinds of reactions inside
SCEN(gen_modes) {
  int k1 = 1 + mc_choose(2, true, "A to B"), k2 = 1 + mc_choose(2, true, "B to A");
  int64_t oa = pick({0, 3, 10}, "offset A"), pa = pick({0, 4, 10}, "period A");
  int vb = mc_choose(4, true, "timer B"); int64_t ad = pick({0, 3, 15, 25}, "delay"); int64_t to = pick({50, 56}, "timeout");
  int r = b.reactor(), A = b.mode(r, true), Bm = b.mode(r, false);
  int d = b.timer(r, 0, 10 * MS), ta = b.timer(r, oa * MS, pa * MS, A), tb = b.timer(r, (vb == 1 ? 5 : vb == 3 ? 7 : 0) * MS, (vb == 2 ? 4 : vb == 3 ? 10 : 0) * MS, Bm);
  int a = b.action(r, ad * MS, true, 0, LP_DEFER, false, A);
  b.rx(r, {STARTUP()}, {}, {}, {}, A); b.rx(r, {STARTUP()}, {}, {}, {}, Bm);
  b.rx(r, {RESET()}, {}, {}, {}, A); b.rx(r, {RESET()}, {}, {}, {}, Bm);
  b.rx(r, {TIMER(d)}, {}, {SCHED(a), MODE(Bm, k1, LG_N_GE, 1)}, {}, A);
  b.rx(r, {TIMER(d)}, {}, {MODE(A, k2)}, {}, Bm);
  b.rx(r, {TIMER(ta)}, {}, {}, {}, A); b.rx(r, {TIMER(tb)}, {}, {}, {}, Bm);
  b.rx(r, {ACTION(a)}, {}, {}, {}, A);
  b.rx(r, {TIMER(d)});
  b.rx(r, {SHUTDOWN()}, {}, {}, {}, A); b.rx(r, {SHUTDOWN()}, {}, {}, {}, Bm); b.rx(r, {SHUTDOWN()});
  b.p.timeout = to * MS;
}
// a modal reactor inside a mode of another
SCEN(gen_nested) {
  int k1 = 1 + mc_choose(2, true, "A to B"), k2 = 1 + mc_choose(2, true, "B to A"), k3 = 1 + mc_choose(2, true, "P to Q"), k4 = 1 + mc_choose(2, true, "Q to P"), in = mc_choose(2, true, "inside");
  int64_t op = pick({0, 3}, "offset P"), pp = pick({0, 4}, "period P"), oq = pick({0, 5}, "offset Q"), pq = pick({0, 3}, "period Q"); int sr = mc_choose(2, true, "state reset");
  int64_t nd = pick({7, 12}, "inner period");
  int r = b.reactor(), A = b.mode(r, true), Bm = b.mode(r, false);
  int q = b.reactor(in ? Bm : A), P = b.mode(q, true), Q = b.mode(q, false);
  b.p.state_reset[q] = sr;
  int d = b.timer(r, 10 * MS, 10 * MS), e = b.timer(q, 0, nd * MS), tp = b.timer(q, op * MS, pp * MS, P), tq = b.timer(q, oq * MS, pq * MS, Q);
  int a = b.action(q, 6 * MS, true, 0, LP_DEFER, false, Q);
  b.rx(r, {TIMER(d)}, {}, {MODE(Bm, k1)}, {}, A); b.rx(r, {TIMER(d)}, {}, {MODE(A, k2)}, {}, Bm);
  b.rx(q, {STARTUP()}, {}, {}, {}, P); b.rx(q, {STARTUP()}, {}, {}, {}, Q); b.rx(q, {RESET()}, {}, {}, {}, P); b.rx(q, {RESET()}, {}, {}, {}, Q); b.rx(q, {STARTUP()}); 
  b.rx(q, {TIMER(e)}, {}, {MODE(Q, k3)}, {}, P); b.rx(q, {TIMER(e)}, {}, {SCHED(a), MODE(P, k4)}, {}, Q);
  b.rx(q, {TIMER(tp)}, {}, {}, {}, P); b.rx(q, {TIMER(tq)}, {}, {}, {}, Q); b.rx(q, {ACTION(a)}, {}, {}, {}, Q);
  b.rx(q, {SHUTDOWN()}, {}, {}, {}, P); b.rx(q, {SHUTDOWN()}, {}, {}, {}, Q); b.rx(q, {SHUTDOWN()});
  b.p.timeout = 55 * MS;
}
// an ordinary reactor inside a mode receives inputs from outside, and switches are requested by a downstream reactor
SCEN(modes_ports) {
  int k = 1 + mc_choose(2, true, "transition"), k2 = 1 + mc_choose(2, true, "back");
  int t = b.reactor(), o = b.out(t), tm = b.timer(t, 0, 5 * MS); b.rx(t, {TIMER(tm)}, {o}, {SET(o)});
  int r = b.reactor(), A = b.mode(r, true), Bm = b.mode(r, false), i = b.in(r); b.conn(o, i);
  int s = b.reactor(A), si = b.in(s), so = b.out(s); b.conn(o, si);
  int u = b.reactor(Bm), ui = b.in(u); b.conn(o, ui); b.p.state_reset[u] = true;
  int w = b.reactor(), wi = b.in(w); b.conn(so, wi);
  b.rx(r, {PORT(i)}, {}, {MODE(Bm, k, LG_N_EVEN)}, {}, A); b.rx(r, {PORT(i)}, {}, {MODE(A, k2, LG_N_GE, 1)}, {}, Bm);
  b.rx(s, {PORT(si)}, {so}, {SET(so)}); b.rx(u, {PORT(ui)}); b.rx(u, {SHUTDOWN()}); b.rx(w, {PORT(wi)});
  b.p.timeout = 40 * MS;
}
// actions pending in a mode that is left, with payloads, entered by history and by reset; startup and shutdown of modes never entered
SCEN(modes_pending) {
  int k2 = 1 + mc_choose(2, true, "back"); int64_t d1 = pick({5, 10, 20}, "delay"), d2 = pick({12, 30}, "second delay"); int64_t to = pick({40, 60}, "timeout");
  int r = b.reactor(), A = b.mode(r, true), Bm = b.mode(r, false), C = b.mode(r, false);
  int d = b.timer(r, 0, 10 * MS), a = b.action(r, d1 * MS, true, 0, LP_DEFER, false, A), c = b.action(r, 0, true, 0, LP_DEFER, false, A), v = b.action(r, 0, false, 0, LP_DEFER, false, A);
  b.rx(r, {TIMER(d)}, {}, {SCHED(a), SCHED(c, d2 * MS), SCHED(a, 1 * MS), SCHED(v, 4 * MS), MODE(Bm, 2)}, {}, A);
  b.rx(r, {TIMER(d)}, {}, {MODE(A, k2, LG_N_EVEN)}, {}, Bm);
  b.rx(r, {ACTION(a)}, {}, {}, {}, A); b.rx(r, {ACTION(c)}, {}, {}, {}, A); b.rx(r, {ACTION(v)}, {}, {}, {}, A);
  b.rx(r, {STARTUP()}, {}, {}, {}, C); b.rx(r, {SHUTDOWN()}, {}, {}, {}, C); b.rx(r, {SHUTDOWN()}, {}, {}, {}, A); b.rx(r, {SHUTDOWN()});
  b.p.timeout = to * MS;
}
// a mode re-enters itself
SCEN(modes_self) {
  int k = 1 + mc_choose(2, true, "transition"); int64_t off = pick({0, 3, 15}, "offset"), per = pick({0, 4, 25}, "period"), ad = pick({5, 15}, "delay");
  int r = b.reactor(), A = b.mode(r, true), Bm = b.mode(r, false); (void)Bm;
  int d = b.timer(r, 10 * MS, 20 * MS), t = b.timer(r, off * MS, per * MS, A), a = b.action(r, ad * MS, true, 0, LP_DEFER, false, A);
  b.rx(r, {STARTUP()}, {}, {}, {}, A); b.rx(r, {RESET()}, {}, {}, {}, A); b.rx(r, {TIMER(t)}, {}, {SCHED(a, 0, LG_N_EVEN)}, {}, A); b.rx(r, {ACTION(a)}, {}, {}, {}, A);
  b.rx(r, {TIMER(d)}, {}, {MODE(A, k)}, {}, A); b.rx(r, {SHUTDOWN()}, {}, {}, {}, A);
  b.p.timeout = 56 * MS;
}
// the program stops at the very tag at which a mode is entered for the first time
SCEN(modes_stop) {
  int k = 1 + mc_choose(2, true, "transition"), w = mc_choose(3, true, "when"), st = mc_choose(2, true, "startup");
  int r = b.reactor(), A = b.mode(r, true), Bm = b.mode(r, false);
  int d = b.timer(r, 10 * MS, 10 * MS), t = b.timer(r, 0, 4 * MS, Bm);
  if (w == 0) b.rx(r, {TIMER(d)}, {}, {MODE(Bm, k), S(LO_STOP)}, {}, A); // stop tag is the microstep of the entry
  else b.rx(r, {TIMER(d)}, {}, {MODE(Bm, k)}, {}, A);
  if (st) b.rx(r, {STARTUP()}, {}, {}, {}, Bm);
  b.rx(r, {RESET()}, {}, {}, {}, Bm); b.rx(r, {TIMER(t)}, {}, {}, {}, Bm); b.rx(r, {SHUTDOWN()}, {}, {}, {}, Bm); b.rx(r, {SHUTDOWN()}, {}, {}, {}, A);
  if (w) b.p.timeout = w == 1 ? 10 * MS : 30 * MS;
}
