#include "lfh.h"
// barriers on tag advancement raised and lifted by other threads, events delivered under them
#define MS 1000000LL
enum { RAISE = 2, LIFT = 3, DELIVER = 4, STOPREQ = 1 };
static void thread(B& b, std::initializer_list<std::tuple<int, int, int64_t, int64_t>> calls) { // what, action, at, extra
  ls_thread& t = b.p.thread[b.p.nthread++];
  for (auto& c : calls) { t.what[t.n] = (int8_t)std::get<0>(c); t.action[t.n] = (int8_t)std::get<1>(c); t.at[t.n] = std::get<2>(c); t.extra[t.n] = std::get<3>(c); t.n++; }
}
// one barrier, raised before, at or after the tag it names, and lifted later
SCEN(barrier1) {
  static const int64_t at[] = {0, 5, 10, 15}, tag[] = {0, 5, 10, 20};
  int x = mc_choose(4, true, "raise at"), y = mc_choose(4, true, "barrier tag");
  int r = b.reactor(), q = b.reactor(), t = b.timer(r, 0, 10 * MS), o = b.out(r), i = b.in(q), a = b.action(r, 0);
  b.conn(o, i);
  thread(b, {{RAISE, 0, at[x] * MS, tag[y] * MS}, {LIFT, 0, 25 * MS, 0}});
  b.rx(r, {STARTUP()}, {}, {S(LO_THREAD, 0)}); b.rx(r, {TIMER(t)}, {o}, {SET(o), SCHED(a)}); b.rx(q, {PORT(i)}); b.rx(r, {ACTION(a)});
  b.rx(r, {SHUTDOWN()}); b.rx(r, {SHUTDOWN()}, {}, {S(LO_JOIN, 0)});
  b.p.timeout = 20 * MS;
}
// two threads with barriers of different tags
SCEN(barrier2) {
  int x = mc_choose(2, true, "order");
  int r = b.reactor(), t = b.timer(r, 0, 10 * MS);
  thread(b, {{RAISE, 0, 5 * MS, 10 * MS}, {LIFT, 0, 15 * MS, 0}});
  thread(b, {{RAISE, 0, (x ? 5 : 10) * MS, 20 * MS}, {LIFT, 0, 25 * MS, 0}});
  b.rx(r, {STARTUP()}, {}, {S(LO_THREAD, 0), S(LO_THREAD, 1)}); b.rx(r, {TIMER(t)});
  b.rx(r, {SHUTDOWN()}); b.rx(r, {SHUTDOWN()}, {}, {S(LO_JOIN, 0), S(LO_JOIN, 1)});
  b.p.timeout = 30 * MS;
}
// a message: barrier at its tag, then its event, then the barrier is lifted
SCEN(barrier_message) {
  static const int64_t tag[] = {10, 12, 20, 30};
  int y = mc_choose(4, true, "message tag");
  int r = b.reactor(), q = b.reactor(), t = b.timer(r, 0, 10 * MS), a = b.physical(q);
  thread(b, {{RAISE, 0, 8 * MS, tag[y] * MS}, {DELIVER, a, 11 * MS, tag[y] * MS}, {LIFT, 0, 11 * MS, 0}});
  b.rx(r, {STARTUP()}, {}, {S(LO_THREAD, 0)}); b.rx(r, {TIMER(t)}); b.rx(q, {ACTION(a)});
  b.rx(r, {SHUTDOWN()}); b.rx(r, {SHUTDOWN()}, {}, {S(LO_JOIN, 0)});
  b.p.timeout = 20 * MS;
}
// two messages at once, one of them for an earlier tag
SCEN(barrier_messages) {
  int r = b.reactor(), q = b.reactor(), a = b.physical(q), c = b.physical(r);
  thread(b, {{RAISE, 0, 5 * MS, 10 * MS}, {DELIVER, a, 5 * MS, 10 * MS}, {LIFT, 0, 12 * MS, 0}});
  thread(b, {{RAISE, 0, 5 * MS, 8 * MS}, {DELIVER, c, 9 * MS, 8 * MS}, {LIFT, 0, 9 * MS, 0}});
  b.rx(r, {STARTUP()}, {}, {S(LO_THREAD, 0), S(LO_THREAD, 1)}); b.rx(q, {ACTION(a)}); b.rx(r, {ACTION(c)});
  b.rx(r, {SHUTDOWN()}); b.rx(r, {SHUTDOWN()}, {}, {S(LO_JOIN, 0), S(LO_JOIN, 1)});
  b.p.timeout = 20 * MS; b.p.keepalive = true;
}
// a stop request while a barrier is in place
SCEN(barrier_stop) {
  int x = mc_choose(2, true, "barrier tag");
  int r = b.reactor(), t = b.timer(r, 0, 10 * MS);
  thread(b, {{RAISE, 0, 5 * MS, (x ? 10 : 20) * MS}, {LIFT, 0, 12 * MS, 0}});
  thread(b, {{STOPREQ, 0, 10 * MS, 0}});
  b.rx(r, {STARTUP()}, {}, {S(LO_THREAD, 0), S(LO_THREAD, 1)}); b.rx(r, {TIMER(t)});
  b.rx(r, {SHUTDOWN()}); b.rx(r, {SHUTDOWN()}, {}, {S(LO_JOIN, 0), S(LO_JOIN, 1)});
  b.p.timeout = 30 * MS;
}
