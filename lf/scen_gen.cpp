#include "lfh.h"
// Families of programs that are enumerated completely (every choice below is free, so all combinations are executed).
#define MS 1000000LL
static int64_t pick(std::initializer_list<int64_t> v, const char* l) { return v.begin()[mc_choose((int)v.size(), true, l)]; }
// timers, one action scheduled with all kinds of delays, a self-scheduling action, all ways to end
SCEN(gen_time) {
  int r = b.reactor(), q = b.reactor();
  int64_t off = pick({0, 7 * MS}, "offset"), per = pick({0, 7 * MS, 14 * MS}, "period"), md = pick({0, 7 * MS}, "min delay"), ex = pick({0, 7 * MS, 14 * MS, -3}, "extra"), ex2 = pick({-1, 0, 7 * MS}, "extra 2");
  int nsched = (int)pick({1, 2}, "schedules"), stop = (int)pick({0, 1, 2, 3}, "stop"), tmo = (int)pick({-1, 0, 7, 14, 20}, "timeout");
  if (tmo < 0 && (!stop || stop == 2) && per) { tmo = 21; }
  int t = b.timer(r, off, per), u = b.timer(q, 7 * MS, 0), a = b.action(r, md), o = b.out(r), i = b.in(q), c = b.action(q, 0, false);
  b.conn(o, i);
  ls_reaction& x = b.p.reaction[b.rx(r, {TIMER(t)}, {o})];
  x.body[x.nbody++] = SCHED(a, ex, LG_N_LT, nsched);
  if (nsched == 2) x.body[x.nbody++] = SCHED(a, ex, LG_N_EQ, 0);
  x.body[x.nbody++] = SET(o, LG_N_EVEN);
  if (stop == 1) x.body[x.nbody++] = S(LO_STOP, 0, 0, LG_N_EQ, 1);
  if (stop == 3) x.body[x.nbody++] = S(LO_STOP, 0, 0, LG_N_EQ, 0);
  ls_reaction& y = b.p.reaction[b.rx(r, {ACTION(a)}, {o}, {SET(o, LG_N_EQ, 1)})];
  if (ex2 >= 0) y.body[y.nbody++] = SCHED(a, ex2, LG_N_LT, 2);
  if (stop == 2) y.body[y.nbody++] = S(LO_STOP, 0, 0, LG_N_EQ, 1);
  b.rx(r, {SHUTDOWN()}, {}, {SCHED(a)});
  b.rx(q, {PORT(i), STARTUP()}, {}, {SCHED(c, 0, LG_PRESENT, 0)}); b.rx(q, {TIMER(u)}, {}, {}, {i}); b.rx(q, {ACTION(c), SHUTDOWN()});
  if (tmo >= 0) b.p.timeout = tmo * MS;
}
// every sequence of schedule calls on an action with minimum spacing
static void spacing(B& b, int len) {
  int r = b.reactor();
  int64_t md = pick({0, 5 * MS}, "min delay"), sp = pick({0, 4 * MS, 9 * MS}, "spacing"); int pol = sp ? mc_choose(3, true, "policy") : 0; int how = mc_choose(2, true, "copy");
  int t = b.timer(r, 0, 3 * MS), a = b.action(r, md, true, sp, pol);
  ls_reaction& x = b.p.reaction[b.rx(r, {TIMER(t)})];
  for (int k = 0; k < len; k++) {
    int w = mc_choose(5, true, "call");
    if (w == 0) continue;
    int op = how ? LO_SCHEDCOPY : LO_SCHED;
    static const int64_t e[] = {0, 0, 4 * MS, 9 * MS, 0};
    x.body[x.nbody++] = S(op, a, e[w], LG_N_EQ, k);
    if (w == 4) x.body[x.nbody++] = S(op, a, 4 * MS, LG_N_EQ, k);
  }
  b.rx(r, {ACTION(a)}); b.rx(r, {SHUTDOWN()});
  b.p.timeout = pick({12 * MS, 60 * MS}, "timeout");
}
SCEN(gen_spacing3) { spacing(b, 3); }
SCEN(gen_spacing4) { spacing(b, 4); }
// calls at successive microsteps of one time, with and without spacing
SCEN(gen_micro) {
  int r = b.reactor();
  int64_t sp = pick({0, 4 * MS}, "spacing"); int pol = sp ? mc_choose(3, true, "policy") : 0;
  int64_t md = pick({0, 4 * MS}, "min delay");
  int t = b.timer(r, 0, 0), z = b.action(r, 0, false), a = b.action(r, md, true, sp, pol);
  b.rx(r, {TIMER(t)}, {}, {SCHED(z)});
  ls_reaction& x = b.p.reaction[b.rx(r, {ACTION(z)}, {}, {SCHED(z, 0, LG_N_LT, 3)})];
  for (int k = 0; k < 4; k++) {
    int w = mc_choose(4, true, "call");
    if (w == 1) x.body[x.nbody++] = SCHED(a, 0, LG_N_EQ, k);
    if (w == 2) x.body[x.nbody++] = SCHED(a, 4 * MS, LG_N_EQ, k);
    if (w == 3) { x.body[x.nbody++] = SCHED(a, 0, LG_N_EQ, k); x.body[x.nbody++] = SCHED(a, 0, LG_N_EQ, k); }
    if (x.nbody > 7) break;
  }
  b.rx(r, {ACTION(a)}, {}, {SCHED(a, 0, LG_N_LT, (int)pick({0, 2}, "self"))}); b.rx(r, {SHUTDOWN()});
}
// four reactors, every set of connections between them, triggering or merely read
SCEN(gen_flow) {
  const int n = 4; int r[n], o[n], in[n][n], e[n][n];
  memset(in, -1, sizeof in); memset(e, 0, sizeof e);
  for (int k = 0; k < n; k++) { r[k] = b.reactor(); o[k] = b.out(r[k]); }
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { e[i][j] = mc_choose(3, true, "edge"); if (e[i][j]) { in[i][j] = b.in(r[j]); b.conn(o[i], in[i][j]); } }
  int who = mc_choose(2, true, "timer");
  int t0 = b.timer(r[0], 0, 10), t1 = b.timer(r[who ? 1 : 3], 10, 0);
  for (int k = 0; k < n; k++) {
    ls_reaction& x = b.p.reaction[b.rx(r[k], {}, {o[k]}, {k == 1 ? SET(o[k], LG_N_EVEN) : SET(o[k])})];
    if (k == 0) x.trig[x.ntrig++] = TIMER(t0);
    if (k == (who ? 1 : 3)) x.trig[x.ntrig++] = TIMER(t1);
    for (int i = 0; i < k; i++) { if (e[i][k] == 1) x.trig[x.ntrig++] = PORT(in[i][k]); if (e[i][k] == 2) x.src[x.nsrc++] = (int8_t)in[i][k]; }
    if (!x.ntrig) x.trig[x.ntrig++] = STARTUP();
  }
  b.p.timeout = 10;
}
// a reactor with several reactions on one input and outputs set by more than one reaction
SCEN(gen_multi) {
  int r = b.reactor(), q = b.reactor(), s = b.reactor();
  int o = b.out(r), i = b.in(q), p = b.out(q), j = b.in(s), k = b.in(s); b.conn(o, i); b.conn(p, j); b.conn(o, k);
  int t = b.timer(r, 0, 10), a = b.action(q, 0);
  int g1 = mc_choose(3, true, "guard 1"), g2 = mc_choose(3, true, "guard 2"), g3 = mc_choose(3, true, "guard 3"), tr = mc_choose(4, true, "trigger"), tr2 = mc_choose(2, true, "trigger 2");
  static const int gs[] = {LG_ALWAYS, LG_N_EVEN, LG_STATE_ODD};
  b.rx(r, {TIMER(t)}, {o}, {SET(o, gs[g1])}); b.rx(r, {TIMER(t)}, {o}, {SET(o, LG_N_EQ, 1)});
  b.rx(q, {PORT(i)}, {p}, {SET(p, gs[g2]), SCHED(a)});
  ls_reaction& x = b.p.reaction[b.rx(q, {ACTION(a)}, {p}, {SET(p, gs[g3])})];
  if (tr & 1) x.trig[x.ntrig++] = PORT(i);
  if (tr & 2) x.src[x.nsrc++] = (int8_t)(64 + a);
  if (tr2) b.rx(s, {PORT(j), PORT(k)}); else b.rx(s, {PORT(j)}, {}, {}, {k});
  b.rx(s, {SHUTDOWN(), PORT(k)}, {}, {}, {j});
  b.p.timeout = 20;
}
// deadlines on a chain: every combination of execution times around the deadlines
SCEN(gen_deadline) {
  int r = b.reactor(), q = b.reactor(), s = b.reactor(); int t = b.timer(r, 0, 100 * MS), ro = b.out(r), qi = b.in(q), qo = b.out(q), si = b.in(s), a = b.action(q, 0);
  b.conn(ro, qi); b.conn(qo, si);
  int64_t d1 = pick({-1, 0, 5 * MS}, "deadline 1"), d2 = pick({-1, 5 * MS, 9 * MS}, "deadline 2"), c1 = pick({0, 5 * MS - 1, 5 * MS, 5 * MS + 1}, "cost 1"), c2 = pick({0, 4 * MS - 1, 4 * MS, 4 * MS + 1, 5 * MS}, "cost 2");
  int h1 = mc_choose(2, true, "handler 1");
  b.rx(r, {TIMER(t)}, {ro}, {S(LO_ADVANCE, 0, c1), SET(ro)});
  int x = b.rx(q, {PORT(qi)}, {qo}, {S(LO_ADVANCE, 0, c2), SET(qo)});
  if (d1 >= 0) { if (h1) b.deadline(x, d1, {S(LO_ADVANCE, 0, c2), SET(qo, LG_ALWAYS), SCHED(a)}); else b.deadline(x, d1, {}); }
  b.rx(q, {ACTION(a)});
  int y = b.rx(s, {PORT(si)}, {}, {S(LO_CHECKDL)});
  if (d2 >= 0) b.deadline(y, d2, {});
  b.rx(s, {SHUTDOWN(), PORT(si)});
  b.p.timeout = 100 * MS;
}
// outputs set many times at one tag, more often than there are ports, others set before and after that
SCEN(gen_many) {
  int r = b.reactor(), t = b.timer(r, 0, 10 * MS), n = b.out(r), o = b.out(r), p = b.out(r), q = b.reactor(), h = b.in(q), i = b.in(q), j = b.in(q), a = b.action(r, 0);
  b.conn(n, h); b.conn(o, i); b.conn(p, j);
  static const int gs[] = {LG_ALWAYS, LG_N_EVEN, LG_STATE_ODD};
  int k = mc_choose(7, true, "sets"), tw = mc_choose(2, true, "twice"), g = mc_choose(3, true, "guard"), f = mc_choose(3, true, "first"), l = mc_choose(3, true, "last");
  b.rx(r, {TIMER(t)}, {n}, {SET(n, gs[f])});
  ls_reaction& x = b.p.reaction[b.rx(r, {TIMER(t), ACTION(a)}, {o})];
  for (int m = 0; m < k; m++) x.body[x.nbody++] = S(LO_SET, o, tw, gs[g]);
  ls_reaction& y = b.p.reaction[b.rx(r, {TIMER(t)}, {p}, {SET(p, gs[l])})];
  if (mc_choose(2, true, "action")) y.body[y.nbody++] = SCHED(a, 0, LG_N_EVEN);
  int u = b.timer(q, 0, 10 * MS);
  b.rx(q, {TIMER(u)}, {}, {}, {h, i, j}); b.rx(q, {PORT(i)}, {}, {}, {h, j});
  b.p.timeout = 35 * MS;
}
