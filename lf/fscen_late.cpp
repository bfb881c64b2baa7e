// Decentralized coordination: messages in time and late. Run with a slow sender (process 1, 3 ms) among other timings.
#include "fedh.h"
static const int64_t MS = 1000000;
static int closing(FB& f, int r) { return f.b.rx(r, {SHUTDOWN()}); }
static void stp(FB& f, int x, std::initializer_list<ls_stmt> h = {}) { ls_reaction& q = f.b.p.reaction[x]; q.has_stp = true; for (auto s : h) q.handler[q.nhandler++] = s; }
static int source(FB& f, int fed, int64_t off, int64_t per) { B& b = f.b; int s = f.reactor(fed), o = b.out(s), t = b.timer(s, off, per); b.rx(s, {TIMER(t)}, {o}, {SET(o)}); closing(f, s); return o; }
// a receiver with a violation handler and events of its own
static int receiver(FB& f, int fed, int64_t off, int64_t per) {
  B& b = f.b; int r = f.reactor(fed), i = b.in(r), t = b.timer(r, off, per);
  b.rx(r, {STARTUP()}); b.rx(r, {TIMER(t)}); int x = b.rx(r, {PORT(i)}); stp(f, x); b.rx(r, {TIMER(t)}, {}, {}, {i}); closing(f, r); return i;
}
FSCEN(sta_enough) { f.b.p.timeout = 10 * MS; fopt.sta[1] = 5 * MS; f.link(source(f, 0, 0, 5 * MS), receiver(f, 1, 0, 5 * MS)); }
FSCEN(sta_short) { f.b.p.timeout = 10 * MS; fopt.sta[1] = 2 * MS; f.link(source(f, 0, 0, 5 * MS), receiver(f, 1, 0, 5 * MS)); }
FSCEN(sta_after) { f.b.p.timeout = 10 * MS; fopt.sta[1] = MS; f.link(source(f, 0, 0, 5 * MS), receiver(f, 1, 0, 2 * MS), MS); }
FSCEN(late) { f.b.p.timeout = 10 * MS; f.link(source(f, 0, 0, 5 * MS), receiver(f, 1, 0, 5 * MS)); }
FSCEN(late_idle) { f.b.p.timeout = 10 * MS; f.link(source(f, 0, 0, 4 * MS), receiver(f, 1, 0, 0)); }
FSCEN(late_after) { f.b.p.timeout = 10 * MS; f.link(source(f, 0, 0, 5 * MS), receiver(f, 1, 0, MS), MS); }
FSCEN(late_after0) { f.b.p.timeout = 6 * MS; f.link(source(f, 0, 0, 5 * MS), receiver(f, 1, 0, MS), 0); }
FSCEN(staa_enough) { f.b.p.timeout = 10 * MS; fopt.staa[1] = 5 * MS; f.link(source(f, 0, 0, 5 * MS), receiver(f, 1, 0, 5 * MS)); }
FSCEN(staa_short) { f.b.p.timeout = 10 * MS; fopt.staa[1] = 2 * MS; f.link(source(f, 0, 0, 5 * MS), receiver(f, 1, 0, 5 * MS)); }
FSCEN(staa_sta) { f.b.p.timeout = 10 * MS; fopt.sta[1] = 2 * MS; fopt.staa[1] = 2 * MS; f.link(source(f, 0, 0, 5 * MS), receiver(f, 1, 0, 5 * MS)); }
FSCEN(staa_ports) { // offsets of two ports differ by the delay
  B& b = f.b; b.p.timeout = 8 * MS; fopt.staa[1] = 4 * MS;
  int o = source(f, 0, 0, 4 * MS); int r = f.reactor(1), i = b.in(r), j = b.in(r), t = b.timer(r, 0, 2 * MS);
  b.rx(r, {STARTUP()}); b.rx(r, {TIMER(t)}, {}, {}, {i}); int x = b.rx(r, {PORT(i)}); stp(f, x); int y = b.rx(r, {PORT(j)}, {}, {}, {i}); stp(f, y); b.rx(r, {TIMER(t)}, {}, {}, {i, j}); closing(f, r);
  f.link(o, i); f.link(o, j, 2 * MS);
}
FSCEN(late_micro) { // messages of several microsteps arrive late together
  B& b = f.b; b.p.timeout = 6 * MS;
  int s = f.reactor(0), o = b.out(s), t = b.timer(s, MS, 0), a = b.action(s, 0);
  b.rx(s, {TIMER(t)}, {o}, {SET(o), SCHED(a)}); b.rx(s, {ACTION(a)}, {o}, {SET(o), SCHED(a, 0, LG_N_LT, 1)}); closing(f, s);
  f.link(o, receiver(f, 1, 0, 2 * MS));
}
FSCEN(late_busy) { // late messages of several tags while the receiver is busy
  B& b = f.b; b.p.timeout = 8 * MS; int o = source(f, 0, 0, MS);
  int r = f.reactor(1), i = b.in(r), t = b.timer(r, 2 * MS, 0);
  b.rx(r, {STARTUP()}); b.rx(r, {TIMER(t)}, {}, {S(LO_ADVANCE, 0, 5 * MS)}); int x = b.rx(r, {PORT(i)}); stp(f, x); closing(f, r);
  f.link(o, i);
}
FSCEN(staa_busy) { // the message arrives while other reactions of its tag execute
  B& b = f.b; b.p.timeout = 5 * MS; fopt.staa[1] = 5 * MS; int o = source(f, 0, 0, 5 * MS);
  for (int k = 0; k < 3; k++) { int r = f.reactor(1), t = b.timer(r, 0, 5 * MS); b.rx(r, {TIMER(t)}); }
  int r = f.reactor(1), i = b.in(r), t = b.timer(r, 0, 5 * MS); int x = b.rx(r, {PORT(i)}); stp(f, x); b.rx(r, {TIMER(t)}, {}, {}, {i}); closing(f, r);
  f.link(o, i);
}
FSCEN(staa_beside) { // the same, one reaction
  B& b = f.b; b.p.timeout = 5 * MS; fopt.staa[1] = 5 * MS; int o = source(f, 0, 5 * MS, 0);
  int q = f.reactor(1), u = b.timer(q, 5 * MS, 0); b.rx(q, {TIMER(u)});
  int r = f.reactor(1), i = b.in(r); int x = b.rx(r, {PORT(i)}); stp(f, x); closing(f, r);
  f.link(o, i);
}
FSCEN(late_pile) { // late messages of several tags, followed by one for the next microstep
  B& b = f.b; b.p.timeout = 12 * MS; int s = f.reactor(0), o = b.out(s), t = b.timer(s, 3 * MS, MS), a = b.action(s, 0);
  b.rx(s, {TIMER(t)}, {o}, {SET(o, LG_N_LT, 3), SCHED(a, 0, LG_N_EQ, 2)}); b.rx(s, {ACTION(a)}, {o}, {SET(o), SCHED(a, 0, LG_N_LT, 2)}); closing(f, s);
  int r = f.reactor(1), i = b.in(r), u = b.timer(r, 5 * MS, 0);
  b.rx(r, {STARTUP()}); b.rx(r, {TIMER(u)}, {}, {S(LO_ADVANCE, 0, 5 * MS)}); int x = b.rx(r, {PORT(i)}); stp(f, x); closing(f, r);
  f.link(o, i);
}
FSCEN(late_meets) { // a late message and a local event come together at one reaction
  B& b = f.b; b.p.timeout = 12 * MS; int o = source(f, 0, 2 * MS, 0);
  int l = f.reactor(1), p = b.out(l), t = b.timer(l, 2 * MS, 0), a = b.action(l, 0);
  b.rx(l, {STARTUP()}); b.rx(l, {TIMER(t)}, {}, {SCHED(a), S(LO_ADVANCE, 0, 5 * MS)}); b.rx(l, {ACTION(a)}, {p}, {SET(p)}); closing(f, l);
  int r = f.reactor(1), i = b.in(r), j = b.in(r); b.conn(p, j); int x = b.rx(r, {PORT(i), PORT(j)}); stp(f, x); closing(f, r);
  f.link(o, i);
}
FSCEN(late_meets_deep) { // the local event passes through further reactions and comes last
  B& b = f.b; b.p.timeout = 12 * MS; int o = source(f, 0, 2 * MS, 0);
  int l = f.reactor(1), p = b.out(l), t = b.timer(l, 2 * MS, 0), a = b.action(l, 0);
  b.rx(l, {STARTUP()}); b.rx(l, {TIMER(t)}, {}, {SCHED(a), S(LO_ADVANCE, 0, 5 * MS)}); b.rx(l, {ACTION(a)}, {p}, {SET(p)}); closing(f, l);
  int m = f.reactor(1), mi = b.in(m), mo = b.out(m); b.rx(m, {PORT(mi)}, {mo}, {SET(mo)}); closing(f, m);
  int r = f.reactor(1), i = b.in(r), j = b.in(r); b.conn(p, mi); b.conn(mo, j); int x = b.rx(r, {PORT(i), PORT(j)}); stp(f, x); closing(f, r);
  f.link(o, i);
}
FSCEN(late_relay) { // the first reaction has no handler
  B& b = f.b; b.p.timeout = 10 * MS; int o = source(f, 0, 0, 5 * MS);
  int m = f.reactor(1), i = b.in(m), p = b.out(m); b.rx(m, {STARTUP()}); b.rx(m, {PORT(i)}, {p}, {SET(p)}); closing(f, m);
  int r = f.reactor(1), j = b.in(r); int x = b.rx(r, {PORT(j)}); stp(f, x); closing(f, r);
  b.conn(p, j); f.link(o, i);
}
FSCEN(late_handled) { // both have one; what the first handler sends is not late
  B& b = f.b; b.p.timeout = 10 * MS; int o = source(f, 0, 0, 5 * MS);
  int m = f.reactor(1), i = b.in(m), p = b.out(m); b.rx(m, {STARTUP()}); int y = b.rx(m, {PORT(i)}, {p}, {SET(p)}); stp(f, y, {SET(p)}); closing(f, m);
  int r = f.reactor(1), j = b.in(r); int x = b.rx(r, {PORT(j)}); stp(f, x); closing(f, r);
  b.conn(p, j); f.link(o, i);
}
FSCEN(late_handled3) {
  B& b = f.b; b.p.timeout = 10 * MS; int o = source(f, 0, 0, 5 * MS);
  int m = f.reactor(1), i = b.in(m), p = b.out(m); b.rx(m, {STARTUP()}); b.rx(m, {PORT(i)}, {p}, {SET(p)}); closing(f, m);
  int q = f.reactor(1), k = b.in(q), u = b.out(q); int y = b.rx(q, {PORT(k)}, {u}, {SET(u)}); stp(f, y, {SET(u)}); closing(f, q);
  int r = f.reactor(1), j = b.in(r); int x = b.rx(r, {PORT(j)}); stp(f, x); closing(f, r);
  b.conn(p, k); b.conn(u, j); f.link(o, i);
}
FSCEN(late_then_prompt) { // the mark of a late message does not stick
  B& b = f.b; b.p.timeout = 12 * MS; int o = source(f, 0, 0, 0), o2 = source(f, 2, 8 * MS, 0);
  int r = f.reactor(1), i = b.in(r), j = b.in(r), t = b.timer(r, 0, 6 * MS); b.rx(r, {STARTUP()}); b.rx(r, {TIMER(t)}); int x = b.rx(r, {PORT(i), PORT(j)}); stp(f, x); closing(f, r);
  f.link(o, i); f.link(o2, j);
}
FSCEN(late_join) {
  B& b = f.b; b.p.timeout = 8 * MS; int o = source(f, 0, 0, 4 * MS), o2 = source(f, 2, 0, 4 * MS); fopt.staa[1] = 2 * MS;
  int r = f.reactor(1), i = b.in(r), j = b.in(r), t = b.timer(r, 0, 4 * MS); b.rx(r, {STARTUP()}); int x = b.rx(r, {PORT(i), PORT(j)}); stp(f, x); b.rx(r, {TIMER(t)}, {}, {}, {i, j}); closing(f, r);
  f.link(o, i); f.link(o2, j);
}
FSCEN(late_end) { f.b.p.timeout = 5 * MS; f.link(source(f, 0, 0, 5 * MS), receiver(f, 1, 0, 5 * MS)); }
FSCEN(late_ring) {
  B& b = f.b; b.p.timeout = 8 * MS; fopt.staa[0] = MS;
  int s = f.reactor(0), o = b.out(s), i = b.in(s), t = b.timer(s, 0, 8 * MS);
  b.rx(s, {TIMER(t)}, {o}, {SET(o)}); int x = b.rx(s, {PORT(i)}); stp(f, x); b.rx(s, {TIMER(t)}, {}, {}, {i}); closing(f, s);
  int r = f.reactor(1), j = b.in(r), p = b.out(r); b.rx(r, {STARTUP()}); b.rx(r, {PORT(j)}, {p}, {SET(p)}); closing(f, r);
  f.link(o, j); f.link(p, i);
}
FSCEN(late_bytes) { f.b.p.timeout = 8 * MS; fopt.sloppy = true; fopt.sta[1] = MS; f.link(source(f, 0, 0, 2 * MS), receiver(f, 1, 0, 5 * MS), INT64_MIN, false, {300, 0, 1}); }
