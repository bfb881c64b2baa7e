#include "lfh.h"
// Programs passing dynamically allocated payloads; every choice is enumerated completely.
static int64_t pick(std::initializer_list<int64_t> v, const char* l) { return v.begin()[mc_choose((int)v.size(), true, l)]; }
enum { C_READ, C_FORWARD, C_MUTATE, C_MUTATE_SEND, C_SCHED, C_SCHED_SEND, C_MUTATE2, C_N };
// a consumer of the output so: a reactor doing one of these things with the payload, and a reactor reading its output
static void consumer(B& b, int so, int tok, int what, int64_t delay, int policy, int64_t spacing, int r = -1) {
  if (r < 0) r = b.reactor();
  int i = b.in(r, tok); b.conn(so, i);
  int o = -1, a = -1;
  if (what == C_FORWARD || what == C_MUTATE_SEND || what == C_SCHED_SEND) o = b.out(r, tok);
  if (what == C_SCHED || what == C_SCHED_SEND) a = b.action(r, delay, true, spacing, policy);
  ls_reaction& x = b.p.reaction[b.rx(r, {PORT(i)})];
  switch (what) {
  case C_FORWARD: x.body[x.nbody++] = S(LO_FORWARD, o); break;
  case C_MUTATE: x.body[x.nbody++] = S(LO_MUTATE, -1); break;
  case C_MUTATE2: x.body[x.nbody++] = S(LO_MUTATE, -1); b.rx(r, {PORT(i)}); break;
  case C_MUTATE_SEND: x.body[x.nbody++] = S(LO_MUTATE, o); break;
  case C_SCHED: case C_SCHED_SEND: x.body[x.nbody++] = S(LO_SCHEDTOK, a); break;
  }
  if (o >= 0 && what != C_SCHED_SEND) x.eff[x.neff++] = (int8_t)o;
  if (a >= 0) {
    if (what == C_SCHED_SEND) b.rx(r, {ACTION(a)}, {o}, {S(LO_FORWARD, o)});
    else b.rx(r, {ACTION(a)}, {}, {}, {i});
  }
  if (o >= 0) { int q = b.reactor(), qi = b.in(q, tok); b.conn(o, qi); b.rx(q, {PORT(qi)}, {}, {S(LO_MUTATE, -1, 0, LG_N_EVEN)}); }
}
static int source(B& b, int tok) {
  int s = b.reactor(), so = b.out(s, tok), t = b.timer(s, 0, 10);
  static const int gs[] = {LG_ALWAYS, LG_N_EVEN};
  int g = mc_choose(2, true, "guard"), tw = mc_choose(2, true, "twice");
  b.rx(s, {TIMER(t)}, {so}, {S(LO_SET, so, tw, gs[g])});
  return so;
}
// one or two consumers, all combinations
SCEN(gen_token) {
  int tok = 1 + mc_choose(2, true, "kind");
  int so = source(b, tok);
  int n = (int)mc_argi("consumers", 2);
  int last = 0;
  for (int k = 0; k < n; k++) {
    int w = last + mc_choose(C_N - 1 - last, true, "consumer"); last = w;
    int64_t d = 0;
    if (w == C_SCHED || w == C_SCHED_SEND) d = pick({0, 10, 25}, "delay");
    consumer(b, so, tok, w, d, LP_DEFER, 0);
  }
  b.p.timeout = 20;
}
// payloads scheduled under all policies: replaced, dropped, deferred, beyond the end
SCEN(gen_token_policy) {
  int tok = 1 + mc_choose(2, true, "kind");
  int so = source(b, tok);
  int w = (int)pick({C_SCHED, C_SCHED_SEND}, "consumer");
  int64_t d = pick({0, 5, 10, 15}, "delay"), sp = pick({0, 7, 15}, "spacing"); int pol = sp ? mc_choose(3, true, "policy") : 0;
  consumer(b, so, tok, w, d, pol, sp);
  if (mc_choose(2, true, "second")) consumer(b, so, tok, C_FORWARD, 0, 0, 0);
  b.p.timeout = pick({20, 32}, "timeout");
}
// a payload travels round through actions: forwarded, scheduled again, kept over several tags
SCEN(gen_token_loop) {
  int tok = 1 + mc_choose(2, true, "kind");
  int s = b.reactor(), so = b.out(s, tok), r = b.reactor(), i = b.in(r, tok), ro = b.out(r, tok), q = b.reactor(), qi = b.in(q, tok);
  b.conn(so, i); b.conn(ro, qi);
  int a = b.action(r, pick({0, 7, 10}, "delay 1")), c = b.action(q, pick({0, 10}, "delay 2"));
  int t = b.timer(s, 0, 10);
  b.rx(s, {TIMER(t)}, {so}, {SET(so, LG_N_EVEN)});
  b.rx(r, {PORT(i)}, {}, {S(LO_SCHEDTOK, a), S(LO_SCHEDTOK, a, mc_choose(2, true, "twice") ? 0 : 3)});
  ls_reaction& x = b.p.reaction[b.rx(r, {ACTION(a)}, {ro}, {S(LO_FORWARD, ro)}, {i})];
  if (mc_choose(2, true, "again")) x.body[x.nbody++] = S(LO_SCHEDTOK, a, 5, LG_N_LT, 3);
  b.rx(q, {PORT(qi)}, {}, {S(LO_SCHEDTOK, c), S(LO_MUTATE, -1, 0, mc_choose(2, true, "mutate") ? LG_ALWAYS : LG_N_EVEN)});
  b.rx(q, {ACTION(c)}, {}, {}, {qi}); b.rx(q, {SHUTDOWN()});
  b.p.timeout = 30;
}
// payloads created for actions
SCEN(gen_token_action) {
  int r = b.reactor(), t = b.timer(r, 0, 10), q = b.reactor(), o = b.out(r), i = b.in(q);
  b.conn(o, i);
  int64_t d = pick({0, 5, 10}, "delay"), sp = pick({0, 4, 15}, "spacing"); int pol = sp ? mc_choose(3, true, "policy") : 0;
  int a = b.action(r, d, true, sp, pol), c = b.action(r, pick({0, 5}, "delay 2"));
  int how = mc_choose(2, true, "copy");
  b.rx(r, {TIMER(t)}, {}, {S(how ? LO_SCHEDCOPY : LO_SCHED, a), S(how ? LO_SCHED : LO_SCHEDCOPY, a, pick({0, 3}, "extra"))});
  b.rx(r, {ACTION(a)}, {o}, {S(LO_SCHEDTOK, c), SET(o)});
  b.rx(r, {ACTION(c)}, {}, {S(LO_SCHEDTOK, c, 0, LG_N_LT, 2)});
  b.rx(q, {PORT(i)});
  b.p.timeout = pick({20, 23}, "timeout");
}
// fan-outs of one and three with every combination of readers and writers in parallel
SCEN(gen_token_fan) {
  int tok = 1 + mc_choose(2, true, "kind");
  int s = b.reactor(), so = b.out(s, tok), t = b.timer(s, 0, 10);
  b.rx(s, {TIMER(t)}, {so}, {SET(so)});
  int last = 0;
  static const int w[] = {C_READ, C_FORWARD, C_MUTATE, C_MUTATE_SEND};
  for (int k = 0; k < 3; k++) { last += mc_choose(4 - last, true, "consumer"); consumer(b, so, tok, w[last], 0, 0, 0); }
  b.p.timeout = 10;
}
