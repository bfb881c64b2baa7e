#include "lfh.h"
#define MS 1000000LL
// starvation: no timers, no actions
SCEN(starve0) { int r = b.reactor(); b.rx(r, {STARTUP()}); b.rx(r, {SHUTDOWN()}); int q = b.reactor(); b.rx(q, {SHUTDOWN()}); }
// no reaction at the start tag at all
SCEN(starve1) { int r = b.reactor(); int t = b.timer(r, 5 * MS, 0); b.rx(r, {TIMER(t)}); b.rx(r, {SHUTDOWN()}); }
// timeout zero: startup, timers and shutdown at one tag
SCEN(timeout0) { int r = b.reactor(), q = b.reactor(); int t = b.timer(r, 0, 5 * MS), a = b.action(r, 0); b.rx(r, {STARTUP()}, {}, {SCHED(a)}); b.rx(r, {TIMER(t)}); b.rx(r, {ACTION(a)}); b.rx(r, {SHUTDOWN()}); b.rx(q, {SHUTDOWN(), STARTUP()}); b.p.timeout = 0; }
// events exactly at, before and after the timeout; events at a microstep of the timeout
SCEN(timeout_edge) {
  int r = b.reactor(); int t = b.timer(r, 10 * MS, 0), u = b.timer(r, 10 * MS + 1, 0), a = b.action(r, 0), c = b.action(r, 10 * MS);
  b.rx(r, {STARTUP()}, {}, {SCHED(c), SCHED(c, 1)}); b.rx(r, {TIMER(t)}, {}, {SCHED(a)}); b.rx(r, {TIMER(u)}); b.rx(r, {ACTION(a), ACTION(c)}, {}, {SCHED(a)}); b.rx(r, {SHUTDOWN()}, {}, {SCHED(a)});
  b.p.timeout = 10 * MS;
}
// the timeout falls between events
SCEN(timeout_gap) { int r = b.reactor(), q = b.reactor(); int t = b.timer(r, 0, 10 * MS); b.rx(r, {TIMER(t)}); b.rx(r, {SHUTDOWN()}); b.rx(q, {SHUTDOWN()}); b.p.timeout = 15 * MS; }
// the timeout with nothing left to do (keepalive)
SCEN(timeout_keepalive) { int r = b.reactor(); b.rx(r, {STARTUP()}); b.rx(r, {SHUTDOWN()}); b.p.timeout = 15 * MS; b.p.keepalive = true; }
// stop requested by a reaction, with events at the next microstep and later
SCEN(stop_reaction) {
  int r = b.reactor(), q = b.reactor(); int t = b.timer(r, 0, 10 * MS), a = b.action(r, 0), c = b.action(r, 1), o = b.out(r), i = b.in(q);
  b.conn(o, i);
  b.rx(r, {TIMER(t)}, {o}, {SCHED(a), S(LO_STOP, 0, 0, LG_N_EQ, 1), SCHED(c), SET(o)}); b.rx(r, {ACTION(a)}, {o}, {SET(o), SCHED(a, 0, LG_N_LT, 3)}); b.rx(r, {ACTION(c)}); b.rx(q, {PORT(i)}); b.rx(q, {SHUTDOWN()}, {}, {}, {i}); b.rx(r, {SHUTDOWN()}, {}, {S(LO_STOP)});
}
// two reactions that may run in parallel request a stop, repeatedly
SCEN(stop_parallel) {
  int r = b.reactor(), q = b.reactor(); int t = b.timer(r, 5 * MS, 5 * MS), u = b.timer(q, 5 * MS, 5 * MS), a = b.action(q, 0);
  b.rx(r, {TIMER(t)}, {}, {S(LO_STOP), S(LO_STOP)}); b.rx(q, {TIMER(u)}, {}, {SCHED(a), S(LO_STOP)}); b.rx(q, {ACTION(a)}); b.rx(q, {SHUTDOWN()}); b.rx(r, {SHUTDOWN()});
  b.p.keepalive = true;
}
// stop at the start tag
SCEN(stop_start) { int r = b.reactor(), q = b.reactor(); int t = b.timer(r, 0, 5 * MS); b.rx(r, {STARTUP()}, {}, {S(LO_STOP)}); b.rx(r, {TIMER(t)}); b.rx(q, {SHUTDOWN()}); b.rx(r, {SHUTDOWN()}); }
// stop at the tag of the timeout and just before it
SCEN(stop_timeout) { int r = b.reactor(); int t = b.timer(r, 10 * MS, 0), u = b.timer(r, 10 * MS - 1, 0); b.rx(r, {TIMER(t)}, {}, {S(LO_STOP)}); b.rx(r, {TIMER(u)}, {}, {S(LO_STOP, 0, 0, LG_N_EQ, mc_argi("early", 0) ? 0 : 9)}); b.rx(r, {SHUTDOWN()}); b.p.timeout = 10 * MS; }
// fast mode: same tags, no waiting
SCEN(fast) {
  int r = b.reactor(), q = b.reactor(); int t = b.timer(r, 0, 1000 * MS), a = b.action(q, 300 * MS), o = b.out(r), i = b.in(q);
  b.conn(o, i);
  b.rx(r, {TIMER(t)}, {o}, {SET(o)}); b.rx(q, {PORT(i)}, {}, {SCHED(a)}); b.rx(q, {ACTION(a)}); b.rx(q, {SHUTDOWN()});
  b.p.timeout = 2500 * MS; b.p.fast = true;
}
// waiting for physical time: distances shorter and longer than what the runtime considers worth waiting for
SCEN(waits) {
  int r = b.reactor(); int a = b.action(r, 0), c = b.action(r, 5 * MS);
  b.rx(r, {STARTUP(), ACTION(a), ACTION(c)}, {}, {SCHED(a, 3000, LG_N_EQ, 0), SCHED(a, 20000, LG_N_EQ, 1), SCHED(c, 0, LG_N_EQ, 2), SCHED(c, 1, LG_N_EQ, 2)}); b.rx(r, {SHUTDOWN()});
}
// reactions that take longer than the distance to the next tag
SCEN(lagging) {
  int r = b.reactor(), q = b.reactor(); int t = b.timer(r, 0, 10 * MS), u = b.timer(q, 5 * MS, 10 * MS);
  b.rx(r, {TIMER(t)}, {}, {S(LO_ADVANCE, 0, 22 * MS, LG_N_EQ, 0)}); b.rx(q, {TIMER(u)}, {}, {S(LO_ADVANCE, 0, 1 * MS)}); b.rx(q, {SHUTDOWN()});
  b.p.timeout = 45 * MS;
}
// deadlines: late, exactly at the deadline, early; the handler has effects
SCEN(deadline) {
  int r = b.reactor(), q = b.reactor(), s = b.reactor(); int t = b.timer(r, 0, 100 * MS), ro = b.out(r), qi = b.in(q), qo = b.out(q), si = b.in(s), a = b.action(q, 0);
  b.conn(ro, qi); b.conn(qo, si);
  int64_t d = 10 * MS;
  b.rx(r, {TIMER(t)}, {ro}, {S(LO_ADVANCE, 0, d, LG_N_EQ, 0), S(LO_ADVANCE, 0, d + 1, LG_N_EQ, 1), S(LO_ADVANCE, 0, d - 1, LG_N_EQ, 2), SET(ro)});
  int x = b.rx(q, {PORT(qi)}, {qo}, {SET(qo), S(LO_CHECKDL)}); b.deadline(x, d, {SET(qo, LG_ALWAYS), SCHED(a)});
  b.rx(q, {ACTION(a)});
  b.rx(s, {PORT(si), SHUTDOWN()});
  b.p.timeout = 250 * MS;
}
// a deadline missed because an earlier reaction of the same reactor takes too long, and one of zero
SCEN(deadline2) {
  int r = b.reactor(), q = b.reactor(); int t = b.timer(r, 0, 100 * MS), o = b.out(r), i = b.in(q), u = b.timer(q, 0, 100 * MS);
  b.conn(o, i);
  b.rx(r, {TIMER(t)}, {}, {S(LO_ADVANCE, 0, 3 * MS, LG_N_EVEN)});
  int x = b.rx(r, {TIMER(t)}, {o}, {SET(o)}); b.deadline(x, 2 * MS, {SET(o, LG_STATE_ODD)});
  int y = b.rx(q, {PORT(i)}); b.deadline(y, 0, {});
  int z = b.rx(q, {TIMER(u)}); b.deadline(z, 1 * MS, {S(LO_ADVANCE, 0, 1 * MS)});
  b.rx(q, {SHUTDOWN()});
  b.p.timeout = 100 * MS;
}
// a deadline without handler changes nothing
SCEN(deadline_chain) {
  int r = b.reactor(), q = b.reactor(), s = b.reactor(); int t = b.timer(r, 0, 50 * MS), ro = b.out(r), qi = b.in(q), qo = b.out(q), si = b.in(s);
  b.conn(ro, qi); b.conn(qo, si);
  b.rx(r, {TIMER(t)}, {ro}, {S(LO_ADVANCE, 0, 4 * MS), SET(ro)});
  int x = b.rx(q, {PORT(qi)}, {qo}, {SET(qo)}); b.deadline(x, 5 * MS, {});
  int y = b.rx(s, {PORT(si)}, {}, {S(LO_CHECKDL)}); b.deadline(y, 3 * MS, {});
  b.rx(s, {SHUTDOWN()});
  b.p.timeout = 50 * MS;
}
