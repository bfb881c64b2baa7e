// Federates whose clocks differ from the coordinator's.
#include "fedh.h"
static const int64_t MS = 1000000;
// both read the physical time at every event
static void two_clocks(FB& f, int64_t period, int64_t timeout, int64_t delay) {
  B& b = f.b; b.p.timeout = timeout;
  int s = f.reactor(0), o = b.out(s), t = b.timer(s, 0, period);
  b.rx(s, {TIMER(t)}, {o}, {SET(o), S(LO_PHYS)}); b.rx(s, {SHUTDOWN()}, {}, {S(LO_PHYS)});
  int r = f.reactor(1), i = b.in(r);
  b.rx(r, {STARTUP()}, {}, {S(LO_PHYS)}); b.rx(r, {PORT(i)}, {}, {S(LO_PHYS)}); b.rx(r, {SHUTDOWN()}, {}, {S(LO_PHYS)});
  f.link(o, i, delay);
}
FSCEN(clock_two) { two_clocks(f, 5 * MS, 10 * MS, INT64_MIN); }
FSCEN(clock_after) { two_clocks(f, 5 * MS, 10 * MS, 5 * MS); }
FSCEN(clock_three) {
  two_clocks(f, 5 * MS, 5 * MS, INT64_MIN);
  B& b = f.b; int r = f.reactor(2), i = b.in(r); b.rx(r, {STARTUP()}, {}, {S(LO_PHYS)}); b.rx(r, {PORT(i)}, {}, {S(LO_PHYS)}); b.rx(r, {SHUTDOWN()}, {}, {S(LO_PHYS)});
  f.link(0, i, MS);
}
FSCEN(clock_parallel) { // two reactors of one federate read the physical time at the same time
  B& b = f.b; b.p.timeout = 2 * MS;
  for (int k = 0; k < 2; k++) { int s = f.reactor(0), t = b.timer(s, 0, 2 * MS); b.rx(s, {TIMER(t)}, {}, {S(LO_PHYS), S(LO_PHYS)}); b.rx(s, {SHUTDOWN()}); }
  int r = f.reactor(1); b.rx(r, {STARTUP()}, {}, {S(LO_PHYS)}); b.rx(r, {SHUTDOWN()});
}
FSCEN(clock_long) { two_clocks(f, 500 * MS, 4000 * MS, INT64_MIN); }
FSCEN(clock_long_apart) {
  B& b = f.b; b.p.timeout = 4000 * MS;
  for (int k = 0; k < 2; k++) { int s = f.reactor(k), t = b.timer(s, 0, 500 * MS); b.rx(s, {TIMER(t)}, {}, {S(LO_PHYS)}); b.rx(s, {SHUTDOWN()}, {}, {S(LO_PHYS)}); }
}
FSCEN(clock_mixed) { // runtime synchronization, initial synchronization and none
  B& b = f.b; b.p.timeout = 4000 * MS;
  for (int k = 0; k < 3; k++) { int s = f.reactor(k), t = b.timer(s, 0, 500 * MS); b.rx(s, {TIMER(t)}, {}, {S(LO_PHYS)}); b.rx(s, {SHUTDOWN()}, {}, {S(LO_PHYS)}); }
}
FSCEN(clock_longer) {
  B& b = f.b; b.p.timeout = 7500 * MS;
  for (int k = 0; k < 2; k++) { int s = f.reactor(k), t = b.timer(s, 0, 1500 * MS); b.rx(s, {TIMER(t)}, {}, {S(LO_PHYS)}); b.rx(s, {SHUTDOWN()}, {}, {S(LO_PHYS)}); }
}
