#include "fedh.h"
static const int64_t MS = 1000000;
static int closing(FB& f, int r) { return f.b.rx(r, {SHUTDOWN()}); }
// a source with a timer: sets out at every period
static int source(FB& f, int fed, int64_t off, int64_t per, int guard = LG_ALWAYS, int garg = 0) {
  B& b = f.b; int s = f.reactor(fed), o = b.out(s), t = b.timer(s, off, per);
  b.rx(s, {TIMER(t)}, {o}, {SET(o, guard, garg)});
  closing(f, s);
  return o;
}
static int sink(FB& f, int fed) { B& b = f.b; int r = f.reactor(fed), i = b.in(r); b.rx(r, {STARTUP()}); b.rx(r, {PORT(i)}); closing(f, r); return i; }
static void relay(FB& f, int fed, int* in, int* out, int guard = LG_ALWAYS, int garg = 0) {
  B& b = f.b; int r = f.reactor(fed); *in = b.in(r); *out = b.out(r);
  b.rx(r, {PORT(*in)}, {*out}, {SET(*out, guard, garg)}); closing(f, r);
}
FSCEN(two) { f.b.p.timeout = 20 * MS; int o = source(f, 0, 0, 10 * MS), i = sink(f, 1); f.link(o, i); }
FSCEN(two_after0) { f.b.p.timeout = 20 * MS; int o = source(f, 0, 0, 10 * MS), i = sink(f, 1); f.link(o, i, 0); }
FSCEN(two_after) { f.b.p.timeout = 20 * MS; int o = source(f, 0, 0, 10 * MS), i = sink(f, 1); f.link(o, i, 15 * MS); }
FSCEN(two_local) { // the receiver has events of its own, at the same and at other times
  B& b = f.b; b.p.timeout = 20 * MS; int o = source(f, 0, 5 * MS, 5 * MS);
  int r = f.reactor(1), i = b.in(r), t = b.timer(r, 0, 10 * MS), u = b.timer(r, 7 * MS, 0);
  b.rx(r, {TIMER(t)}); b.rx(r, {TIMER(t), PORT(i)}); b.rx(r, {TIMER(u)}, {}, {}, {i}); b.rx(r, {TIMER(t)}, {}, {}, {i}); closing(f, r);
  f.link(o, i);
}
FSCEN(two_micro) { // several microsteps
  B& b = f.b; b.p.timeout = 5 * MS; int s = f.reactor(0), o = b.out(s), t = b.timer(s, MS, 0), a = b.action(s, 0);
  b.rx(s, {TIMER(t)}, {o}, {SET(o), SCHED(a)}); b.rx(s, {ACTION(a)}, {o}, {SET(o, LG_N_LT, 2), SCHED(a, 0, LG_N_LT, 2)}); closing(f, s);
  int r = f.reactor(1), i = b.in(r), c = b.action(r, 0);
  b.rx(r, {PORT(i)}, {}, {SCHED(c)}); b.rx(r, {ACTION(c)}, {}, {}, {i}); closing(f, r);
  f.link(o, i);
}
FSCEN(two_lines) { // two connections with different delays
  B& b = f.b; b.p.timeout = 20 * MS; int o = source(f, 0, 0, 10 * MS);
  int r = f.reactor(1), i = b.in(r), j = b.in(r);
  b.rx(r, {PORT(i), PORT(j)}); b.rx(r, {PORT(j)}, {}, {}, {i}); closing(f, r);
  f.link(o, i); f.link(o, j, 10 * MS);
}
FSCEN(chain3) { f.b.p.timeout = 10 * MS; int o = source(f, 0, 0, 10 * MS), i, p; relay(f, 1, &i, &p); int k = sink(f, 2); f.link(o, i); f.link(p, k); }
FSCEN(chain3_after) { f.b.p.timeout = 10 * MS; int o = source(f, 0, 0, 5 * MS), i, p; relay(f, 1, &i, &p, LG_N_EVEN); int k = sink(f, 2); f.link(o, i, 5 * MS); f.link(p, k, 0); }
FSCEN(diamond3) {
  B& b = f.b; b.p.timeout = 10 * MS; int o = source(f, 0, 0, 10 * MS), i, p; relay(f, 1, &i, &p, LG_N_EVEN);
  int r = f.reactor(2), j = b.in(r), k = b.in(r);
  b.rx(r, {PORT(j), PORT(k)}); b.rx(r, {PORT(j)}, {}, {}, {k}); closing(f, r);
  f.link(o, i); f.link(p, j); f.link(o, k);
}
FSCEN(join3) { // two sources, one receiver
  B& b = f.b; b.p.timeout = 10 * MS; int o = source(f, 0, 0, 10 * MS), p = source(f, 1, 0, 5 * MS);
  int r = f.reactor(2), j = b.in(r), k = b.in(r);
  b.rx(r, {PORT(j), PORT(k)}); closing(f, r);
  f.link(o, j); f.link(p, k);
}
FSCEN(fork3) { B& b = f.b; b.p.timeout = 10 * MS; int o = source(f, 0, 0, 10 * MS), i = sink(f, 1), j = sink(f, 2); (void)b; f.link(o, i); f.link(o, j, 10 * MS); }
FSCEN(loop_after) { // a cycle with a delay
  B& b = f.b; b.p.timeout = 10 * MS;
  int s = f.reactor(0), o = b.out(s), i = b.in(s); b.rx(s, {STARTUP()}, {o}, {SET(o)}); b.rx(s, {PORT(i)}, {o}, {SET(o)}); closing(f, s);
  int j, p; relay(f, 1, &j, &p);
  f.link(o, j); f.link(p, i, 4 * MS);
}
FSCEN(loop_after0) {
  B& b = f.b; b.p.timeout = 4 * MS;
  int s = f.reactor(0), o = b.out(s), i = b.in(s); b.rx(s, {STARTUP()}, {o}, {SET(o)}); b.rx(s, {PORT(i)}, {o}, {SET(o, LG_N_LT, 2)}); closing(f, s);
  int j, p; relay(f, 1, &j, &p);
  f.link(o, j); f.link(p, i, 0);
}
FSCEN(loop3_after) { // a cycle of three
  B& b = f.b; b.p.timeout = 8 * MS;
  int s = f.reactor(0), o = b.out(s), i = b.in(s); b.rx(s, {STARTUP()}, {o}, {SET(o)}); b.rx(s, {PORT(i)}, {o}, {SET(o)}); closing(f, s);
  int j, p, k, q; relay(f, 1, &j, &p); relay(f, 2, &k, &q);
  f.link(o, j); f.link(p, k); f.link(q, i, 4 * MS);
}
FSCEN(apart) { f.b.p.timeout = 10 * MS; source(f, 0, 0, 10 * MS); int r = f.reactor(1); f.b.rx(r, {STARTUP()}); closing(f, r); }
FSCEN(physical_source) { // a physical action upstream of a connection
  B& b = f.b; b.p.timeout = 20 * MS; b.p.min_phys = 0;
  int s = f.reactor(0), o = b.out(s), a = b.physical(s); b.p.nthread = 1;
  b.p.thread[0].n = 1; b.p.thread[0].action[0] = (int8_t)a; b.p.thread[0].at[0] = 4 * MS; b.p.thread[0].extra[0] = 0;
  b.rx(s, {STARTUP()}, {}, {S(LO_THREAD, 0)}); b.rx(s, {ACTION(a)}, {o}, {SET(o)}); b.rx(s, {SHUTDOWN()}, {}, {S(LO_JOIN, 0)});
  int i = sink(f, 1);
  f.link(o, i);
}
FSCEN(physical_sink) { // a physical action in the receiver
  B& b = f.b; b.p.timeout = 10 * MS;
  int o = source(f, 0, 0, 5 * MS);
  int r = f.reactor(1), i = b.in(r), a = b.physical(r); b.p.nthread = 1;
  b.p.thread[0].n = 1; b.p.thread[0].action[0] = (int8_t)a; b.p.thread[0].at[0] = 4 * MS;
  b.rx(r, {STARTUP()}, {}, {S(LO_THREAD, 0)}); b.rx(r, {ACTION(a)}, {}, {}, {i}); b.rx(r, {PORT(i)}); b.rx(r, {SHUTDOWN()}, {}, {S(LO_JOIN, 0)});
  f.link(o, i);
}
FSCEN(physical_link) { f.b.p.timeout = 20 * MS; int o = source(f, 0, 0, 5 * MS), i = sink(f, 1); f.link(o, i, INT64_MIN, true); }
FSCEN(physical_link_after) { f.b.p.timeout = 20 * MS; int o = source(f, 0, 0, 5 * MS), i = sink(f, 1); f.link(o, i, 3 * MS, true); }
FSCEN(slow_source) { // the sender's reactions take time
  B& b = f.b; b.p.timeout = 20 * MS; int s = f.reactor(0), o = b.out(s), t = b.timer(s, 0, 10 * MS);
  b.rx(s, {TIMER(t)}, {o}, {S(LO_ADVANCE, 0, 4 * MS), SET(o)}); closing(f, s);
  int r = f.reactor(1), i = b.in(r), u = b.timer(r, 0, 5 * MS); b.rx(r, {TIMER(u)}, {}, {}, {i}); b.rx(r, {PORT(i)}); closing(f, r);
  f.link(o, i);
}
// ------------------------------------------------------------------ zero-delay cycles
FSCEN(zdc_ring) { // out and back at the same tag
  B& b = f.b; b.p.timeout = 10 * MS;
  int s = f.reactor(0), o = b.out(s), i = b.in(s), t = b.timer(s, 0, 10 * MS);
  b.rx(s, {TIMER(t)}, {o}, {SET(o)}); b.rx(s, {PORT(i)}); closing(f, s);
  int j, p; relay(f, 1, &j, &p);
  f.link(o, j); f.link(p, i);
}
FSCEN(zdc_ring_some) { // the reply is sent every other time; the reader looks at it at every tag
  B& b = f.b; b.p.timeout = 10 * MS;
  int s = f.reactor(0), o = b.out(s), i = b.in(s), t = b.timer(s, 0, 5 * MS);
  b.rx(s, {TIMER(t)}, {o}, {SET(o)}); b.rx(s, {TIMER(t)}, {}, {}, {i}); closing(f, s);
  int j, p; relay(f, 1, &j, &p, LG_N_EVEN);
  f.link(o, j); f.link(p, i);
}
FSCEN(zdc_exchange) { // both send at their own times, both read the other's message
  B& b = f.b; b.p.timeout = 6 * MS; int o[2], i[2];
  for (int k = 0; k < 2; k++) {
    int r = f.reactor(k); o[k] = b.out(r); i[k] = b.in(r); int t = b.timer(r, k ? 3 * MS : 0, k ? 3 * MS : 2 * MS);
    b.rx(r, {TIMER(t)}, {o[k]}, {SET(o[k], LG_N_EVEN)}); b.rx(r, {PORT(i[k])}, {}, {}); b.rx(r, {TIMER(t)}, {}, {}, {i[k]}); closing(f, r);
  }
  f.link(o[0], i[1]); f.link(o[1], i[0]);
}
FSCEN(zdc_micro) { // with microsteps on one side
  B& b = f.b; b.p.timeout = 2 * MS;
  int s = f.reactor(0), o = b.out(s), i = b.in(s), a = b.action(s, 0);
  b.rx(s, {STARTUP()}, {o}, {SET(o), SCHED(a)}); b.rx(s, {ACTION(a)}, {o}, {SET(o), SCHED(a, 0, LG_N_LT, 1)}); b.rx(s, {ACTION(a)}, {}, {}, {i}); closing(f, s);
  int j, p; relay(f, 1, &j, &p);
  f.link(o, j); f.link(p, i);
}
FSCEN(zdc_twice) { // through the other federate twice at one tag
  B& b = f.b; b.p.timeout = 5 * MS;
  int s = f.reactor(0), o = b.out(s), i = b.in(s), o2 = b.out(s), i2 = b.in(s), t = b.timer(s, 0, 5 * MS);
  b.rx(s, {TIMER(t)}, {o}, {SET(o)}); b.rx(s, {PORT(i)}, {o2}, {SET(o2, LG_N_EVEN)}); b.rx(s, {TIMER(t)}, {}, {}, {i2}); closing(f, s);
  int j, p, j2, p2; relay(f, 1, &j, &p); relay(f, 1, &j2, &p2);
  f.link(o, j); f.link(p, i); f.link(o2, j2); f.link(p2, i2);
}
FSCEN(zdc_three) {
  B& b = f.b; b.p.timeout = 5 * MS;
  int s = f.reactor(0), o = b.out(s), i = b.in(s), t = b.timer(s, 0, 5 * MS);
  b.rx(s, {TIMER(t)}, {o}, {SET(o)}); b.rx(s, {TIMER(t)}, {}, {}, {i}); closing(f, s);
  int j, p, k, q; relay(f, 1, &j, &p, LG_N_EVEN); relay(f, 2, &k, &q);
  f.link(o, j); f.link(p, k); f.link(q, i);
}
FSCEN(zdc_outside) { // a cycle fed from outside
  B& b = f.b; b.p.timeout = 5 * MS;
  int o = source(f, 2, 0, 5 * MS);
  int s = f.reactor(0), e = b.in(s), p = b.out(s), i = b.in(s);
  b.rx(s, {PORT(e)}, {p}, {SET(p, LG_N_EVEN)}); b.rx(s, {PORT(e)}, {}, {}, {i}); closing(f, s);
  int j, q; relay(f, 1, &j, &q);
  f.link(o, e); f.link(p, j); f.link(q, i);
}
FSCEN(zdc_mixed) { // one direction without delay twice, back once without and once with delay
  B& b = f.b; b.p.timeout = 6 * MS;
  int s = f.reactor(0), o = b.out(s), i = b.in(s), k = b.in(s), t = b.timer(s, 0, 3 * MS);
  b.rx(s, {TIMER(t)}, {o}, {SET(o)}); b.rx(s, {PORT(k)}, {}, {}, {i}); b.rx(s, {PORT(i)}); closing(f, s);
  int j, p; relay(f, 1, &j, &p);
  f.link(o, j); f.link(p, i); f.link(p, k, 3 * MS);
}
// ------------------------------------------------------------------ stopping together
FSCEN(stop_sender) {
  B& b = f.b; fopt.stop_requested = true;
  int s = f.reactor(0), o = b.out(s), t = b.timer(s, 0, 5 * MS); b.rx(s, {TIMER(t)}, {o}, {SET(o), S(LO_STOP, 0, 0, LG_N_EQ, 1)}); closing(f, s);
  f.link(o, sink(f, 1));
}
FSCEN(stop_receiver) {
  B& b = f.b; fopt.stop_requested = true;
  int o = source(f, 0, 0, 5 * MS); int r = f.reactor(1), i = b.in(r); b.rx(r, {PORT(i)}, {}, {S(LO_STOP, 0, 0, LG_N_EQ, 1)}); closing(f, r);
  f.link(o, i);
}
FSCEN(stop_both) {
  B& b = f.b; fopt.stop_requested = true;
  int s = f.reactor(0), o = b.out(s), t = b.timer(s, 0, 5 * MS); b.rx(s, {TIMER(t)}, {o}, {SET(o), S(LO_STOP, 0, 0, LG_N_EQ, 1)}); closing(f, s);
  int r = f.reactor(1), i = b.in(r), u = b.timer(r, 0, 5 * MS); b.rx(r, {TIMER(u)}, {}, {S(LO_STOP, 0, 0, LG_N_EQ, 1)}); b.rx(r, {PORT(i)}); closing(f, r);
  f.link(o, i);
}
FSCEN(stop_apart) { // no connection
  B& b = f.b; fopt.stop_requested = true;
  source(f, 0, 0, 5 * MS); int r = f.reactor(1), u = b.timer(r, 0, 4 * MS); b.rx(r, {TIMER(u)}, {}, {S(LO_STOP, 0, 0, LG_N_EQ, 1)}); closing(f, r);
}
FSCEN(stop_loop) {
  B& b = f.b; fopt.stop_requested = true;
  int s = f.reactor(0), o = b.out(s), i = b.in(s); b.rx(s, {STARTUP()}, {o}, {SET(o)}); b.rx(s, {PORT(i)}, {o}, {SET(o)}); closing(f, s);
  int r = f.reactor(1), j = b.in(r), p = b.out(r); b.rx(r, {PORT(j)}, {p}, {SET(p), S(LO_STOP, 0, 0, LG_N_EQ, 1)}); closing(f, r);
  f.link(o, j); f.link(p, i, 4 * MS);
}
FSCEN(stop_zdc) {
  B& b = f.b; fopt.stop_requested = true;
  int s = f.reactor(0), o = b.out(s), i = b.in(s), t = b.timer(s, 0, 5 * MS);
  b.rx(s, {TIMER(t)}, {o}, {SET(o)}); b.rx(s, {TIMER(t)}, {}, {S(LO_STOP, 0, 0, LG_N_EQ, 1)}, {i}); closing(f, s);
  int j, p; relay(f, 1, &j, &p);
  f.link(o, j); f.link(p, i);
}
FSCEN(stop_three) {
  B& b = f.b; fopt.stop_requested = true;
  int o = source(f, 0, 0, 5 * MS), i, p; relay(f, 1, &i, &p);
  int r = f.reactor(2), k = b.in(r); b.rx(r, {PORT(k)}, {}, {S(LO_STOP, 0, 0, LG_N_EQ, 1)}); closing(f, r);
  f.link(o, i); f.link(p, k, 2 * MS);
}
FSCEN(stop_outside) { // requested by another thread
  B& b = f.b; fopt.stop_requested = true;
  int o = source(f, 0, 0, 5 * MS); int r = f.reactor(1), i = b.in(r); b.p.nthread = 1; b.p.thread[0].n = 1; b.p.thread[0].what[0] = 1; b.p.thread[0].at[0] = 7 * MS;
  b.rx(r, {STARTUP()}, {}, {S(LO_THREAD, 0)}); b.rx(r, {PORT(i)}); b.rx(r, {SHUTDOWN()}, {}, {S(LO_JOIN, 0)});
  f.link(o, i);
}
FSCEN(stop_timeout) { // close to the timeout
  B& b = f.b; fopt.stop_requested = true; b.p.timeout = 5 * MS;
  int o = source(f, 0, 0, 5 * MS); int r = f.reactor(1), i = b.in(r); b.rx(r, {PORT(i)}, {}, {S(LO_STOP, 0, 0, LG_N_EQ, 0)}); closing(f, r);
  f.link(o, i);
}
// ------------------------------------------------------------------ payloads
static void payload(FB& f, std::vector<int> lens, int64_t delay = INT64_MIN, bool phys = false) {
  fopt.sloppy = true; f.b.p.timeout = 3 * MS * (int64_t)lens.size() - 2 * MS; int o = source(f, 0, 0, 3 * MS), i = sink(f, 1); f.link(o, i, delay, phys, lens);
}
FSCEN(bytes_small) { payload(f, {0, 1, 3}); }
FSCEN(bytes_edge) { payload(f, {235, 236, 257}); }
FSCEN(bytes_one) { payload(f, {300}); }
FSCEN(bytes_large) { payload(f, {1000, 0, 300}); }
FSCEN(bytes_huge) { payload(f, {70000, 5}); }
FSCEN(bytes_physical) { payload(f, {0, 300, 1}, INT64_MIN, true); }
FSCEN(bytes_two) { // two connections of one federate at one tag
  B& b = f.b; fopt.sloppy = true; b.p.timeout = 3 * MS; int o = source(f, 0, 0, 3 * MS), i = sink(f, 1), j = sink(f, 1); f.link(o, i, INT64_MIN, false, {300, 1}); f.link(o, j, MS, false, {0, 400});
}
// ------------------------------------------------------------------ starting
FSCEN(start_message) { // a message for later arrives while the receiver waits to be allowed its startup reactions
  B& b = f.b; b.p.timeout = 3 * MS;
  int c = source(f, 0, 0, 0);
  int r = f.reactor(1), i = b.in(r), j = b.in(r), o = b.out(r); b.rx(r, {STARTUP()}, {o}, {SET(o)}); b.rx(r, {PORT(i), PORT(j)}); closing(f, r);
  int s = f.reactor(2), k = b.in(s), p = b.out(s), t = b.timer(s, MS, 0); b.rx(s, {TIMER(t)}, {p}, {SET(p)}, {k}); b.rx(s, {PORT(k)}); closing(f, s);
  f.link(c, i, 2 * MS); f.link(p, j, 2 * MS); f.link(o, k);
}
