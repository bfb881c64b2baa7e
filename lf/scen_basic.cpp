#include "lfh.h"
// one reactor, timers with coinciding and diverging firings, shutdown
SCEN(timers) {
  int r = b.reactor();
  int t1 = b.timer(r, 0, 10), t2 = b.timer(r, 5, 15), t3 = b.timer(r, 20, 0);
  b.rx(r, {STARTUP()}); b.rx(r, {TIMER(t1)}); b.rx(r, {TIMER(t2)}); b.rx(r, {TIMER(t1), TIMER(t3)}); b.rx(r, {SHUTDOWN()});
  b.p.timeout = 45;
}
// timers of two unrelated reactors: their reactions may run in parallel
SCEN(timers2) {
  int r = b.reactor(), q = b.reactor();
  int t1 = b.timer(r, 0, 10), t2 = b.timer(q, 0, 20), t3 = b.timer(q, 10, 0);
  b.rx(r, {STARTUP(), TIMER(t1)}); b.rx(r, {TIMER(t1)}); b.rx(q, {TIMER(t2)}); b.rx(q, {TIMER(t3), TIMER(t2)}); b.rx(q, {SHUTDOWN()}); b.rx(r, {SHUTDOWN()});
  b.p.timeout = 20;
}
// source feeding two parallel reactors joined by a third
SCEN(diamond) {
  int s = b.reactor(), l = b.reactor(), q = b.reactor(), j = b.reactor();
  int so = b.out(s), li = b.in(l), lo = b.out(l), qi = b.in(q), qo = b.out(q), j1 = b.in(j), j2 = b.in(j);
  b.conn(so, li); b.conn(so, qi); b.conn(lo, j1); b.conn(qo, j2);
  int t = b.timer(s, 0, 10);
  b.rx(s, {TIMER(t)}, {so}, {SET(so)});
  b.rx(l, {PORT(li)}, {lo}, {SET(lo)});
  b.rx(q, {PORT(qi)}, {qo}, {SET(qo, LG_N_EVEN)});
  b.rx(j, {PORT(j1), PORT(j2)});
  b.rx(j, {PORT(j2)});
  b.rx(j, {SHUTDOWN()});
  b.p.timeout = 20;
}
// logical actions with delays, piling up at one tag, and microsteps
SCEN(actions) {
  int r = b.reactor(), q = b.reactor();
  int a = b.action(r, 0), c = b.action(r, 3), o = b.out(r), i = b.in(q);
  b.conn(o, i);
  b.rx(r, {STARTUP()}, {}, {SCHED(a), SCHED(c), SCHED(c)});
  b.rx(r, {ACTION(a)}, {o}, {SCHED(a, 0, LG_N_LT, 2), SCHED(c, 2), SET(o)});
  b.rx(r, {ACTION(c)}, {o}, {SET(o, LG_N_EVEN)});
  b.rx(q, {PORT(i)});
  b.rx(q, {SHUTDOWN()});
}
// two reactors schedule their own actions for one tag in parallel
SCEN(actions2) {
  int r = b.reactor(), q = b.reactor(), j = b.reactor();
  int a = b.action(r, 5), c = b.action(q, 5), ro = b.out(r), qo = b.out(q), j1 = b.in(j), j2 = b.in(j);
  b.conn(ro, j1); b.conn(qo, j2);
  b.rx(r, {STARTUP(), ACTION(a)}, {ro}, {SCHED(a, 0, LG_N_LT, 2), SCHED(a, 0, LG_N_EQ, 1), SET(ro)});
  b.rx(q, {STARTUP(), ACTION(c)}, {qo}, {SCHED(c, 0, LG_N_LT, 2), SET(qo, LG_N_GE, 1)});
  b.rx(j, {PORT(j1)}, {}, {}, {j2});
  b.rx(j, {PORT(j2), SHUTDOWN()}, {}, {}, {j1});
}
// a chain over four levels next to an independent reaction, with levels skipped
SCEN(chain) {
  int a = b.reactor(), c = b.reactor(), d = b.reactor(), e = b.reactor(), f = b.reactor();
  int ao = b.out(a), ci = b.in(c), co = b.out(c), di = b.in(d), dO = b.out(d), ei = b.in(e), e2 = b.in(e);
  b.conn(ao, ci); b.conn(co, di); b.conn(dO, ei); b.conn(ao, e2);
  int t = b.timer(a, 0, 10), u = b.timer(f, 0, 10);
  b.rx(a, {TIMER(t)}, {ao}, {SET(ao)});
  b.rx(c, {PORT(ci)}, {co}, {SET(co, LG_N_EVEN)});
  b.rx(d, {PORT(di)}, {dO}, {SET(dO)});
  b.rx(e, {PORT(ei)}, {}, {}, {e2});
  b.rx(e, {PORT(e2)}, {}, {}, {ei});
  b.rx(f, {TIMER(u)});
  b.rx(f, {SHUTDOWN()});
  b.p.timeout = 10;
}
// one source, three parallel receivers with different consequences, one join
SCEN(fan) {
  int s = b.reactor(), j = b.reactor();
  int so = b.out(s), t = b.timer(s, 0, 7);
  b.rx(s, {TIMER(t)}, {so}, {SET(so)});
  int ji[3];
  for (int k = 0; k < 3; k++) ji[k] = b.in(j);
  for (int k = 0; k < 3; k++) {
    int r = b.reactor(), i = b.in(r), o = b.out(r);
    b.conn(so, i); b.conn(o, ji[k]);
    b.rx(r, {PORT(i)}, {o}, {k == 0 ? SET(o) : k == 1 ? SET(o, LG_N_EVEN) : SET(o, LG_STATE_ODD)});
  }
  b.rx(j, {PORT(ji[0]), PORT(ji[1]), PORT(ji[2])});
  b.rx(j, {SHUTDOWN()});
  b.p.timeout = 7;
}
// delayed feedback between two reactors
SCEN(feedback) {
  int r = b.reactor(), q = b.reactor();
  int ro = b.out(r), ri = b.in(r), qo = b.out(q), qi = b.in(q), a = b.action(q, 4), s0 = b.action(r, 0);
  b.conn(ro, qi); b.conn(qo, ri);
  b.rx(q, {ACTION(a)}, {qo}, {SET(qo)});
  b.rx(r, {STARTUP(), PORT(ri)}, {}, {SCHED(s0, 0, LG_N_LT, 3)});
  b.rx(r, {ACTION(s0)}, {ro}, {SET(ro)}, {ri});
  b.rx(q, {PORT(qi)}, {}, {SCHED(a), SCHED(a, 1, LG_N_EQ, 1)});
  b.rx(r, {SHUTDOWN()});
}
// presence: ports set conditionally, twice, by two writers, and read by reactions triggered by something else
SCEN(presence) {
  int r = b.reactor(), q = b.reactor();
  int o = b.out(r), o2 = b.out(r), i = b.in(q), i2 = b.in(q), t = b.timer(r, 0, 5), u = b.timer(q, 0, 5), a = b.action(r, 0), z = b.action(q, 0);
  b.conn(o, i); b.conn(o2, i2);
  b.rx(r, {TIMER(t)}, {o}, {SET(o, LG_N_EVEN), SCHED(a, 0, LG_N_EQ, 1)});
  b.rx(r, {TIMER(t), ACTION(a)}, {o, o2}, {S(LO_SET, o2, 1, LG_N_GE, 1), S(LO_SET, o, 1, LG_N_EQ, 2)});
  b.rx(q, {TIMER(u)}, {}, {SCHED(z, 0, LG_N_EQ, 0)}, {i, i2, 64 + z});
  b.rx(q, {PORT(i2), ACTION(z)}, {}, {}, {i});
  b.rx(q, {SHUTDOWN()}, {}, {}, {i, i2});
  b.p.timeout = 10;
}
// ports of a contained reactor: an output passed up and an input passed down through containers
SCEN(passthrough) {
  int top = b.reactor(), c = b.reactor(), d = b.reactor();
  int co = b.out(c), to = b.in(top), di = b.in(d), d2 = b.in(d), t = b.timer(c, 0, 5);
  b.conn(co, to); b.conn(to, di); b.conn(to, d2);
  b.rx(c, {TIMER(t)}, {co}, {SET(co, LG_N_EVEN)});
  b.rx(d, {PORT(di)}); b.rx(d, {PORT(d2), SHUTDOWN()}, {}, {}, {di});
  b.p.timeout = 10;
}
// four independent reactions at one level and two at a later one
SCEN(wide) {
  int src = b.reactor(); int o = b.out(src), t = b.timer(src, 0, 9);
  b.rx(src, {TIMER(t)}, {o}, {SET(o)});
  for (int k = 0; k < 4; k++) { int r = b.reactor(), i = b.in(r); b.conn(o, i); b.rx(r, {PORT(i)}); if (k < 2) b.rx(r, {PORT(i)}); }
  b.rx(src, {SHUTDOWN()});
  b.p.timeout = 9;
}
// reactions triggered at a level far above the others
SCEN(levelgap) {
  int r = b.reactor(), q = b.reactor();
  int t = b.timer(r, 0, 6), u = b.timer(q, 3, 6), o = b.out(r), i = b.in(q), a = b.action(r, 0);
  b.conn(o, i);
  b.rx(r, {STARTUP()}); b.rx(r, {ACTION(a)}); b.rx(r, {ACTION(a)}, {o}, {SET(o)}); b.rx(r, {TIMER(t)}, {}, {SCHED(a)});
  b.rx(q, {TIMER(u)}); b.rx(q, {PORT(i), TIMER(u)}); b.rx(q, {SHUTDOWN()}); b.rx(r, {SHUTDOWN()});
  b.p.timeout = 9;
}
// reactions of one level with different inferred deadlines (order and level encodings), nothing late
SCEN(deadlines_order) {
  int s = b.reactor(), l = b.reactor(), q = b.reactor(), j = b.reactor();
  int so = b.out(s), li = b.in(l), lo = b.out(l), qi = b.in(q), qo = b.out(q), j1 = b.in(j), j2 = b.in(j), t = b.timer(s, 0, 50000000);
  b.conn(so, li); b.conn(so, qi); b.conn(lo, j1); b.conn(qo, j2);
  b.rx(s, {TIMER(t)}, {so}, {SET(so)});
  b.rx(l, {PORT(li)}, {lo}, {SET(lo)});
  int x = b.rx(q, {PORT(qi)}, {qo}, {SET(qo)}); b.deadline(x, 9000000, {});
  int y = b.rx(j, {PORT(j1)}, {}, {}, {j2}); b.deadline(y, 20000000, {});
  b.rx(j, {PORT(j2)});
  b.rx(j, {SHUTDOWN()});
  b.p.timeout = 50000000;
}
// every program of a small family: three reactors in a row of dependencies chosen exhaustively
SCEN(topo) {
  int n = 3; int o[3], in[3][3]; int r[3]; memset(in, -1, sizeof in);
  int timer_of = mc_choose(2, true, "second timer");
  for (int k = 0; k < n; k++) { r[k] = b.reactor(); o[k] = b.out(r[k]); }
  int e01 = mc_choose(3, true, "edge 0-1"), e02 = mc_choose(3, true, "edge 0-2"), e12 = mc_choose(3, true, "edge 1-2"); // none, trigger, source
  int order = mc_choose(2, true, "order"), setg = mc_choose(2, true, "guard");
  auto link = [&](int s, int d) { in[s][d] = b.in(r[d]); b.conn(o[s], in[s][d]); };
  if (e01) link(0, 1);
  if (e02) link(0, 2);
  if (e12) link(1, 2);
  int t0 = b.timer(r[0], 0, 10), t1 = timer_of ? b.timer(r[1], 0, 20) : b.timer(r[2], 10, 0);
  // declared in an order unrelated to the dependencies when order is 1
  for (int q = 0; q < n; q++) {
    int k = order ? n - 1 - q : q;
    if (k == 0) b.rx(r[0], {TIMER(t0), SHUTDOWN()}, {o[0]}, {setg ? SET(o[0], LG_N_EVEN) : SET(o[0])});
    if (k == 1) {
      ls_reaction& x = b.p.reaction[b.rx(r[1], {}, {o[1]}, {SET(o[1])})];
      if (e01 == 1) x.trig[x.ntrig++] = PORT(in[0][1]);
      if (timer_of) x.trig[x.ntrig++] = TIMER(t1);
      if (e01 == 2) x.src[x.nsrc++] = (int8_t)in[0][1];
      if (!x.ntrig) x.trig[x.ntrig++] = STARTUP();
    }
    if (k == 2) {
      ls_reaction& x = b.p.reaction[b.rx(r[2], {})];
      if (e02 == 1) x.trig[x.ntrig++] = PORT(in[0][2]);
      if (e12 == 1) x.trig[x.ntrig++] = PORT(in[1][2]);
      if (!timer_of) x.trig[x.ntrig++] = TIMER(t1);
      if (!x.ntrig) x.trig[x.ntrig++] = STARTUP();
      if (e02 == 2) x.src[x.nsrc++] = (int8_t)in[0][2];
      if (e12 == 2) x.src[x.nsrc++] = (int8_t)in[1][2];
      b.rx(r[2], {SHUTDOWN()});
    }
  }
  b.p.timeout = 20;
}
