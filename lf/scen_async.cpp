#include "lfh.h"
// physical actions scheduled by other threads, and stops requested by them
static void thread(B& b, std::initializer_list<std::tuple<int, int, int64_t, int64_t>> calls) { // what, action, at, extra
  ls_thread& t = b.p.thread[b.p.nthread++];
  for (auto& c : calls) { t.what[t.n] = (int8_t)std::get<0>(c); t.action[t.n] = (int8_t)std::get<1>(c); t.at[t.n] = std::get<2>(c); t.extra[t.n] = std::get<3>(c); t.n++; }
}
#define MS 1000000LL
// one thread, two calls while the program waits for a timer
SCEN(async1) {
  int r = b.reactor(), t = b.timer(r, 0, 100 * MS), a = b.physical(r);
  thread(b, {{0, a, 10 * MS, 0}, {0, a, 10 * MS, 0}});
  b.rx(r, {STARTUP()}, {}, {S(LO_THREAD, 0)}); b.rx(r, {TIMER(t)}); b.rx(r, {ACTION(a)}); b.rx(r, {SHUTDOWN()}, {}, {S(LO_JOIN, 0)});
  b.p.timeout = 100 * MS;
}
// calls at the very moments the timer is due
SCEN(async_timer) {
  int r = b.reactor(), q = b.reactor(), t = b.timer(r, 0, 50 * MS), a = b.physical(q);
  thread(b, {{0, a, 50 * MS, 0}, {0, a, 50 * MS, 10 * MS}});
  b.rx(r, {STARTUP()}, {}, {S(LO_THREAD, 0)}); b.rx(r, {TIMER(t)}); b.rx(q, {ACTION(a)}); b.rx(r, {SHUTDOWN()}, {}, {S(LO_JOIN, 0)});
  b.p.timeout = 100 * MS;
}
// two threads schedule one action, and another of a different reactor
SCEN(async2) {
  int r = b.reactor(), q = b.reactor(), a = b.physical(r), c = b.physical(q, 5 * MS);
  thread(b, {{0, a, 10 * MS, 0}, {0, c, 10 * MS, 0}}); thread(b, {{0, a, 10 * MS, 0}, {0, a, 20 * MS, 5 * MS}});
  b.rx(r, {STARTUP()}, {}, {S(LO_THREAD, 0), S(LO_THREAD, 1)}); b.rx(r, {ACTION(a)}); b.rx(q, {ACTION(c)}); b.rx(r, {SHUTDOWN()}, {}, {S(LO_JOIN, 0), S(LO_JOIN, 1)});
  b.p.timeout = 60 * MS; b.p.keepalive = true;
}
// nothing to do but wait for calls (keepalive), the program is stopped by its timeout
SCEN(async_idle) {
  int r = b.reactor(), a = b.physical(r), c = b.physical(r, 7 * MS), o = b.out(r), q = b.reactor(), i = b.in(q);
  b.conn(o, i);
  thread(b, {{0, a, 0, 0}, {0, c, 0, 0}, {0, a, 30 * MS, 0}});
  b.rx(r, {STARTUP()}, {}, {S(LO_THREAD, 0)}); b.rx(r, {ACTION(a), ACTION(c)}, {o}, {SET(o)}); b.rx(q, {PORT(i)}); b.rx(r, {SHUTDOWN()}, {}, {S(LO_JOIN, 0)});
  b.p.timeout = 80 * MS; b.p.keepalive = true;
}
// calls just before and at the timeout
SCEN(async_end) {
  int r = b.reactor(), a = b.physical(r);
  thread(b, {{0, a, 20 * MS - 1, 0}, {0, a, 20 * MS, 0}, {0, a, 20 * MS + 1, 0}});
  b.rx(r, {STARTUP()}, {}, {S(LO_THREAD, 0)}); b.rx(r, {ACTION(a)}); b.rx(r, {SHUTDOWN()});
  b.rx(r, {SHUTDOWN()}, {}, {S(LO_JOIN, 0)});
  b.p.timeout = 20 * MS; b.p.keepalive = true;
}
// reactions schedule a physical action, at the tag of a timer and at a later microstep
SCEN(phys_reaction) {
  int r = b.reactor(), t = b.timer(r, 0, 10 * MS), a = b.physical(r), z = b.action(r, 0);
  b.rx(r, {TIMER(t)}, {}, {SCHED(z), SCHED(a)}); b.rx(r, {ACTION(z)}, {}, {SCHED(a), SCHED(a)}); b.rx(r, {ACTION(a)}); b.rx(r, {SHUTDOWN()});
  b.p.timeout = 10 * MS;
}
// a stop request from another thread at any moment
SCEN(stop_async) {
  int r = b.reactor(), q = b.reactor(), t = b.timer(r, 0, 10 * MS), o = b.out(r), i = b.in(q);
  b.conn(o, i);
  thread(b, {{1, 0, 10 * MS, 0}});
  b.rx(r, {STARTUP()}, {}, {S(LO_THREAD, 0)}); b.rx(r, {TIMER(t)}, {o}, {SET(o)}); b.rx(q, {PORT(i)});
  b.rx(q, {SHUTDOWN()}); b.rx(q, {SHUTDOWN()}, {}, {S(LO_JOIN, 0)});
  b.p.timeout = 40 * MS;
}
// the same while the runtime is idle
SCEN(stop_idle) {
  int r = b.reactor(), t = b.timer(r, 0, 0);
  thread(b, {{1, 0, 10 * MS, 0}});
  b.rx(r, {STARTUP()}, {}, {S(LO_THREAD, 0)}); b.rx(r, {TIMER(t)}); b.rx(r, {SHUTDOWN()}); b.rx(r, {SHUTDOWN()}, {}, {S(LO_JOIN, 0)});
  b.p.keepalive = true;
}
// two threads request a stop, one of them after scheduling an action
SCEN(stop_two) {
  int r = b.reactor(), a = b.physical(r), t = b.timer(r, 0, 10 * MS);
  thread(b, {{0, a, 10 * MS, 0}, {1, 0, 10 * MS, 0}}); thread(b, {{1, 0, 10 * MS, 0}});
  b.rx(r, {STARTUP()}, {}, {S(LO_THREAD, 0), S(LO_THREAD, 1)}); b.rx(r, {TIMER(t)}); b.rx(r, {ACTION(a)}); b.rx(r, {SHUTDOWN()}); b.rx(r, {SHUTDOWN()}, {}, {S(LO_JOIN, 0), S(LO_JOIN, 1)});
  b.p.timeout = 60 * MS; b.p.keepalive = true;
}
