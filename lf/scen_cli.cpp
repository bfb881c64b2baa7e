#include "lfh.h"
// Command lines of a program that runs, with options compiled in and options given at the start.
#define MS 1000000LL
static void args(B& b, bool dflt, std::initializer_list<const char*> v) { for (auto s : v) { if (dflt) b.p.dargv[b.p.dargc++] = s; else b.p.argv[b.p.argc++] = s; } }
static void program(B& b) {
  int r = b.reactor(), q = b.reactor(), o = b.out(r), i = b.in(q), t = b.timer(r, 0, 7 * MS), a = b.action(q, 2 * MS);
  b.conn(o, i);
  b.rx(r, {STARTUP(), TIMER(t)}, {o}, {SET(o)}); b.rx(q, {PORT(i)}, {}, {SCHED(a)}); b.rx(q, {ACTION(a)}); b.rx(r, {SHUTDOWN()}); b.rx(q, {SHUTDOWN()});
  b.p.rawargs = true; b.p.workers = 0;
}
SCEN(cli_effect) {
  program(b);
  struct T { const char *v, *u; int64_t ns; };
  static const T tm[] = {{"21000000", "nsec", 21 * MS}, {"14000", "usec", 14 * MS}, {"10", "msec", 10 * MS}, {"30", "msecs", 30 * MS}, {"0", "sec", 0}, {"0", "weeks", 0}};
  const T &d = tm[mc_choose(6, true, "default timeout")], &c = tm[mc_choose(6, true, "timeout")];
  bool over = mc_choose(2, true, "timeout on the command line"), fast = mc_choose(2, true, "fast"), dfast = mc_choose(2, true, "fast by default");
  int w = mc_choose(3, true, "workers");
  args(b, true, {"-o", d.v, d.u}); b.p.timeout = d.ns;
  if (dfast) { args(b, true, {"--fast", "true"}); b.p.fast = true; }
  if (over) { args(b, false, {"--timeout", c.v, c.u}); b.p.timeout = c.ns; }
  if (fast) { args(b, false, {"-f", dfast ? "false" : "true"}); b.p.fast = !dfast; }
  if (w) { args(b, w == 1, {"-w", "1"}); b.p.workers = 1; }
  if (mc_choose(2, true, "keepalive")) { args(b, false, {"-k", "true"}); b.p.keepalive = true; }
}
SCEN(cli_reject) {
  program(b); opt.reject = true;
  bool dflt = mc_choose(2, true, "in the default options"), before = mc_choose(2, true, "valid option first");
  args(b, true, {"-o", "20", "msec"});
  if (before) args(b, dflt, {"-f", "true"});
  switch (mc_choose(9, true, "malformed option")) {
  case 0: args(b, dflt, {"-o", "x", "sec"}); break;
  case 1: args(b, dflt, {"-o", "5", "parsec"}); break;
  case 2: args(b, dflt, {"-o", "5"}); break;
  case 3: args(b, dflt, {"-f"}); break;
  case 4: args(b, dflt, {"-w"}); break;
  case 5: args(b, dflt, {"--unknown"}); break;
  case 6: args(b, dflt, {"-o", "1.5", "msec"}); break;
  case 7: args(b, dflt, {"-o", "20000", "weeks"}); break;
  default: args(b, dflt, {"-k"}); break;
  }
  if (dflt && mc_choose(2, true, "valid command line")) args(b, false, {"-f", "false"});
}
