// Simulated federations: the real coordinator and the real federates as processes of one controlled execution.
#include "fedh.h"
#include <algorithm>
#include <set>
#include <stdio.h>
#include <stdlib.h>
FOpt fopt;
static const int64_t NEVER = INT64_MIN;
static std::vector<std::pair<std::string, fscen_f>>& fscens() { static auto* v = new std::vector<std::pair<std::string, fscen_f>>; return *v; }
void add_fscen(const char* n, fscen_f f) { fscens().push_back({n, f}); }
extern "C" {
int lf_gen_main_0(void*); int lf_gen_main_1(void*); int lf_gen_main_2(void*);
int rti_main(int, const char**);
}
static int (*mains[])(void*) = {lf_gen_main_0, lf_gen_main_1, lf_gen_main_2};
struct World { ls_prog base, whole; ls_graph wg; FB* f; int rti; int nfed; int sx[16], rx[16], rv[16]; };
static World* W;
// The processes begin at chosen times.
static int64_t begins[4], began[4];
static void begin(int p) { if (begins[p]) mc_sleep_until(begins[p]); began[p] = mc_now(); }
static int fed_entry(void* k) { begin(1 + (int)(intptr_t)k); return mains[(intptr_t)k](k); }
static int rti_entry(void*) {
  begin(0);
  static char n[8]; snprintf(n, sizeof n, "%d", W->nfed);
  // clock synchronization of the coordinator: 0 off, 1 initial, 2 on (every 100 ms)
  const char* a[16] = {"RTI", "-i", "fed", "-n", n, "-c"}; int c = 6; int sync = (int)mc_argi("sync", 0);
  static char ex[8]; snprintf(ex, sizeof ex, "%d", (int)mc_argi("exchanges", 10));
  a[c++] = sync == 2 ? "on" : sync == 1 ? "init" : "off";
  if (sync == 2) { a[c++] = "period"; a[c++] = "100000000"; }
  if (sync) { a[c++] = "exchanges-per-interval"; a[c++] = ex; }
#ifdef AUTH
  a[c++] = "-a";
#endif
  return rti_main(c, a);
}
// The unfederated program: connections between federates pass through a pair of forwarding reactors.
static void make_whole(bool external = false) { // external: messages may come at any tag
  FB& f = *W->f;
  W->whole = W->base;
  FB w(W->whole); W->whole = W->base; // FB clears the program
  B& b = w.b;
  int k = 0;
  for (auto& l : f.links) {
    int s = b.reactor(), r = b.reactor(); W->rv[k] = r;
    int si = b.in(s), ro = b.out(r);
    b.conn(l.src, si); b.conn(ro, l.dst);
    bool ext = external || l.physical;
    if (l.delay == NEVER && !ext) {
      int so = b.out(s), ri = b.in(r);
      b.conn(so, ri);
      W->sx[k] = b.rx(s, {PORT(si)}, {so}, {S(LO_FORWARD, so)});
      W->rx[k] = b.rx(r, {PORT(ri)}, {ro}, {S(LO_FORWARD, ro)});
    } else {
      int a = b.action(r, l.delay == NEVER ? 0 : l.delay, true, 0, LP_DEFER, ext);
      if (ext) W->sx[k] = b.rx(s, {PORT(si)}, {}, {});
      else W->sx[k] = b.rx(s, {PORT(si)}, {}, {S(LO_SCHEDTOK, a)});
      W->rx[k] = b.rx(r, {ACTION(a)}, {ro}, {S(LO_FORWARD, ro)});
    }
    k++;
  }
  for (int x = 0; x < W->base.nreaction; x++) for (ls_stmt *q = W->whole.reaction[x].body, *e = q + W->whole.reaction[x].nbody; q < e; q++) if (q->op == LO_STOP) q->op = LO_NOP;
  ls_analyse(&W->whole, &W->wg);
}
static void make_fed(int k) {
  FB& f = *W->f;
  Inst& n = O->in[k];
  FB g(n.p); n.p = W->base;
  ls_prog& p = n.p; B& b = g.b;
  p.fed_id = k; p.nfed = f.n; p.rti_port = 15045; p.federation = "fed"; p.sta = fopt.sta[k]; p.staa = fopt.staa[k];
  int tmap[LS_MAXT]; p.ntimer = 0;
  for (int t = 0; t < W->base.ntimer; t++) { tmap[t] = -1; if (f.fed[(int)W->base.timer[t].reactor] == k) { tmap[t] = p.ntimer; p.timer[p.ntimer++] = W->base.timer[t]; } }
  for (int x = 0; x < p.nreaction; x++) {
    ls_reaction& r = p.reaction[x];
    if (f.fed[(int)r.reactor] != k) { r.ntrig = r.nsrc = r.neff = r.nbody = r.nhandler = 0; r.deadline = -1; r.has_handler = r.has_stp = false; continue; }
    for (int i = 0; i < r.ntrig; i++) if (r.trig[i].kind == LT_TIMER) r.trig[i].idx = (int8_t)tmap[(int)r.trig[i].idx];
  }
  // reachability without delay
  bool reach[4][4] = {{false}};
  for (auto& l : f.links) if (l.delay == NEVER && !l.physical) reach[f.fed[(int)W->base.port[l.src].reactor]][f.fed[(int)W->base.port[l.dst].reactor]] = true;
  for (int m = 0; m < 4; m++) for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (reach[i][m] && reach[m][j]) reach[i][j] = true;
  std::vector<std::pair<int, int>> net; // reaction, level in the whole program
  std::set<int> in_peer, out_peer; int64_t updel[4]; std::set<int> ups, downs;
  int e = 0;
  for (auto& l : f.links) {
    int sf = f.fed[(int)W->base.port[l.src].reactor], df = f.fed[(int)W->base.port[l.dst].reactor];
    bool p2p = l.physical || fopt.decentralized;
    bool zdc = !l.physical && l.delay == NEVER && reach[df][sf];
    if (sf == k) {
      int s = b.reactor(), si = b.in(s); b.conn(l.src, si);
      int o = p.nnetout++; l.idx_out = o;
      ls_net& q = p.netout[o]; q.peer = df; q.delay = l.delay; q.physical = l.physical; q.zdc = zdc; q.link = e; q.nlen = (int)l.lens.size(); for (int i = 0; i < q.nlen; i++) q.len[i] = l.lens[i];
      q.peer_port = 0; for (auto& m : f.links) { if (&m == &l) break; if (f.fed[(int)W->base.port[m.dst].reactor] == df) q.peer_port++; }
      net.push_back({b.rx(s, {PORT(si)}, {}, {S(LO_NETSEND, o)}), W->wg.level[W->sx[e]]});
      if (!l.physical && (zdc || fopt.decentralized)) net.push_back({b.rx(s, {{LT_NETABSENT, 0}}, {}, {S(LO_NETABS, o, 0, LG_ALWAYS, 0, 1)}, {si}), W->wg.level[W->sx[e]]});
      if (p2p) out_peer.insert(df);
      if (!l.physical) downs.insert(df);
    }
    if (df == k) {
      int r = b.reactor(), ro = b.out(r); b.conn(ro, l.dst);
      int i = p.nnetin++; l.idx_in = i;
      ls_net& q = p.netin[i]; q.peer = sf; q.delay = l.delay; q.physical = l.physical; q.zdc = zdc; q.link = e; q.nlen = (int)l.lens.size(); for (int j = 0; j < q.nlen; j++) q.len[j] = l.lens[j];
      int a = b.action(r, 0, true, 0, LP_DEFER, false); p.action[a].netin = (int8_t)i;
      net.push_back({b.rx(r, {ACTION(a)}, {ro}, {S(LO_NETRECV, ro)}), W->wg.level[W->rx[e]]});
      if (p2p) in_peer.insert(sf);
      if (!l.physical) { if (!ups.count(sf)) { ups.insert(sf); updel[sf] = l.delay; } else if (l.delay < updel[sf]) updel[sf] = l.delay; }
    }
    e++;
  }
  for (auto& x : net) for (auto& y : net) if (x.second < y.second && p.norder < LS_MAXORD) { p.order[p.norder++] = {(int8_t)x.first, (int8_t)y.first}; }
  for (int u : ups) { p.up[p.nup] = u; p.up_delay[p.nup++] = updel[u]; }
  for (int d : downs) p.down[p.ndown++] = d;
  for (int d : out_peer) p.out_p2p[p.nout_p2p++] = d;
  p.nin_p2p = (int)in_peer.size();
}
static Tag shutdown_of(int k) {
  Inst& n = O->in[k];
  for (int r = 0; r < n.p.nreactor; r++) for (auto& q : n.recs[r]) { const ls_reaction& rx = n.p.reaction[q.rx]; if (rx.ntrig == 1 && is_shutdown(n.p, q.rx)) return q.g; }
  return {-1, 0};
}
static Tag delayed(Tag g, int64_t d) { return d == NEVER ? g : d == 0 ? Tag{g.t, g.m + 1} : Tag{g.t + d, 0}; }
// Decentralized: the reaction received (directly or from reactions without a handler) a message handled after its intended tag.
static bool flagged(int x, Tag g) {
  FB& f = *W->f; const ls_reaction& rx = W->base.reaction[x]; int k = f.fed[(int)rx.reactor]; Inst& n = O->in[k];
  const Rec* rec = nullptr; for (auto& q : n.recs[(int)rx.reactor]) if (q.rx == x && q.g == g) rec = &q;
  if (!rec) return false;
  for (auto& rd : rec->reads) {
    if (rd.slot >= rx.ntrig || rx.trig[rd.slot].kind != LT_PORT || !rd.present) continue;
    int p = rx.trig[rd.slot].idx;
    for (auto& l : f.links) if (l.dst == p && !l.physical) {
      auto &s = O->in[f.fed[(int)W->base.port[l.src].reactor]].sent[l.idx_out], &t = n.got[l.idx_in];
      for (size_t i = 0; i < t.size() && i < s.size(); i++) if (t[i].g == g && delayed(s[i].g, l.delay) < g) return true;
    }
    for (int c = 0; c < W->base.nconn; c++) if (W->base.conn[c].dst == p) for (int y = 0; y < W->base.nreaction; y++) {
      const ls_reaction& w = W->base.reaction[y]; bool writes = false;
      for (int e = 0; e < w.neff; e++) if (w.eff[e] == W->base.conn[c].src) writes = true;
      if (writes && !w.has_stp && flagged(y, g)) return true;
    }
  }
  return false;
}
static bool judge_late() {
  FB& f = *W->f;
  const int64_t margin = 20000;
  bool timing = !mc_cfg.time_deviation && mc_cfg.tick == 0;
  for (auto& l : f.links) {
    if (l.physical) continue;
    int sf = f.fed[(int)W->base.port[l.src].reactor], df = f.fed[(int)W->base.port[l.dst].reactor]; size_t e = (size_t)(&l - &f.links[0]);
    Inst &a = O->in[sf], &b = O->in[df];
    std::set<Tag> tags; tags.insert({0, 0});
    for (int r = 0; r < b.p.nreactor; r++) for (auto& q : b.recs[r]) tags.insert(q.g);
    int64_t way = mc_cfg.net_latency + (mc_cfg.slow_proc == 1 + a.proc ? mc_cfg.slow_latency : 0), sta = fopt.sta[df], staa = fopt.staa[df];
    if (l.delay > 0) staa = std::max<int64_t>(staa - l.delay, 0);
    for (size_t i = 0; i < a.sent[l.idx_out].size(); i++) {
      auto& s = a.sent[l.idx_out][i]; Tag want = delayed(s.g, l.delay); int64_t arrives = s.at + way;
      if (i >= b.got[l.idx_in].size()) {
        Tag end = shutdown_of(df);
        if (timing && want <= end && arrives + margin < end.t + sta) { mc_fail("connection %zu: message %zu for tag %s arrives at %lld, before the receiver ends, and is dropped", e, i, tagstr(want).c_str(), (long long)arrives); return false; }
        mc_count("a message arrives after the receiver's last tag");
        break;
      }
      auto& g = b.got[l.idx_in][i];
      int x = -1; for (int y = 0; y < b.p.nreaction; y++) if (b.p.reaction[y].ntrig == 1 && b.p.reaction[y].trig[0].kind == LT_ACTION && b.p.action[(int)b.p.reaction[y].trig[0].idx].netin == l.idx_in) x = y;
      auto it = b.intended.find(std::make_tuple(x, 0, g.g));
      if (it == b.intended.end() || !(it->second == want)) { mc_fail("connection %zu: message %zu for tag %s, handled at %s, shows the intended tag %s", e, i, tagstr(want).c_str(), tagstr(g.g).c_str(), it == b.intended.end() ? "none" : tagstr(it->second).c_str()); return false; }
      for (int y = 0; y < W->base.nreaction; y++) if (f.fed[(int)W->base.reaction[y].reactor] == df) for (int q = 0; q < W->base.reaction[y].ntrig; q++) if (W->base.reaction[y].trig[q].kind == LT_PORT && W->base.reaction[y].trig[q].idx == l.dst) {
        auto it2 = b.intended.find(std::make_tuple(y, q, g.g));
        if (it2 != b.intended.end() && !(it2->second == want)) { mc_fail("connection %zu: reaction %d at %s sees intended tag %s instead of %s", e, y, tagstr(g.g).c_str(), tagstr(it2->second).c_str(), tagstr(want).c_str()); return false; }
      }
      if (!(want < g.g)) { mc_count("messages handled at their tag"); continue; }
      mc_count("messages handled late");
      auto pt = tags.lower_bound(g.g); --pt;
      Tag prev = *pt;
      if (prev < want) { mc_fail("connection %zu: message %zu for tag %s is handled only at %s though the receiver has not been at or past its tag (last at %s)", e, i, tagstr(want).c_str(), tagstr(g.g).c_str(), tagstr(prev).c_str()); return false; }
      if (!(g.g == Tag{prev.t, prev.m + 1})) { mc_fail("connection %zu: late message %zu for tag %s is handled at %s, not at the earliest tag after %s", e, i, tagstr(want).c_str(), tagstr(g.g).c_str(), tagstr(prev).c_str()); return false; }
      if (timing && arrives + margin < want.t + sta) { mc_fail("connection %zu: message %zu for tag %s arrives at %lld, within the STA offset %lld, and is handled late at %s", e, i, tagstr(want).c_str(), (long long)arrives, (long long)sta, tagstr(g.g).c_str()); return false; }
      if (timing && tags.count(want) && arrives + margin < want.t + sta + staa) { mc_fail("connection %zu: message %zu for tag %s arrives at %lld, within the STAA offset %lld, and is handled late at %s", e, i, tagstr(want).c_str(), (long long)arrives, (long long)staa, tagstr(g.g).c_str()); return false; }
    }
  }
  for (int x = 0; x < W->base.nreaction; x++) if (W->base.reaction[x].has_stp) {
    Inst& n = O->in[f.fed[(int)W->base.reaction[x].reactor]];
    for (auto& q : n.recs[(int)W->base.reaction[x].reactor]) if (q.rx == x) {
      bool late = flagged(x, q.g);
      if (late != (q.kind == HK_STP)) { mc_fail("reaction %d at %s %s a late message and executes its %s", x, tagstr(q.g).c_str(), late ? "receives" : "does not receive", q.kind == HK_STP ? "violation handler" : "body"); return false; }
      if (late) mc_count("violation handlers executed");
    }
  }
  return true;
}
#include "fvisit_cases.inc"
// Clock synchronization: how far a federate's notion of the coordinator's time may be off. Each way takes the same time, except
// for the messages of a slow process and for delayed messages, each one a part of an average.
static int64_t clock_bound();
static int64_t clock_bound() { return 30 + (mc_cfg.slow_proc ? mc_cfg.slow_latency / 2 + 1 : 0) + mc_delayed() * (mc_cfg.lat_dev / (2 * mc_argi("exchanges", 10)) + 1); }
static bool judge_clock() {
  for (int k = 0; k < W->nfed; k++) {
    Inst& n = O->in[k]; int64_t b = clock_bound();
    bool set = k == 0 && fopt.clock_step;
    for (auto& q : n.phys) {
      int64_t c = b + (set && q.t1 - mc_cfg.start_time >= mc_cfg.step_at[1] ? fopt.clock_step : 0);
      if (q.v < q.t0 - c || q.v > q.t1 + c) { mc_fail("federate %d: physical time read as %lld at %lld, off by more than %lld", k, (long long)(q.v - n.start), (long long)(q.t1 - n.start), (long long)c); return false; }
    }
    if (set && !n.phys.empty()) {
      auto& q = n.phys.back(); int64_t c = b + fopt.clock_step * (mc_cfg.udp_loss ? 95 : 50) / 100;
      if (q.v < q.t0 - c || q.v > q.t1 + c) { mc_fail("federate %d: its clock was set by %lld; physical time is still off by %lld after %lld ns", k, (long long)fopt.clock_step, (long long)(q.v - q.t1), (long long)(q.t1 - mc_cfg.start_time - mc_cfg.step_at[1])); return false; }
    }
    if (!n.phys.empty()) mc_count("federates whose physical time was compared");
  }
  return true;
}
static fscen_f the;
static const char* the_name;
static void setup() {
  for (int i = 0; i < MAXI; i++) O->in[i].used = false;
  for (auto& t : O->thread_last) t = INT64_MIN;
  memset(O->flags, 0, sizeof O->flags);
  opt = Opt(); fopt = FOpt();
#ifdef DECENTRALIZED
  fopt.decentralized = true; opt.check_prompt = false;
#endif
  opt.check_leaks = false;
  delete W->f;
  W->f = new FB(W->base);
  W->base.workers = (int)mc_argi("workers", 2);
  W->base.keepalive = true;
  W->base.min_phys = -1;
  the(*W->f);
  W->nfed = W->f->n;
  if (mc_argi("sync", 0)) { fopt.clock_step = llabs(mc_cfg.step[1]); opt.clock_error = clock_bound() + fopt.clock_step + 2 * mc_cfg.lat_dev; if (fopt.clock_step) opt.check_prompt = false; opt.check_prompt = false; }
  else for (int i = 0; i < 8; i++) if (mc_cfg.skew[i]) { opt.clock_error = std::max<int64_t>(opt.clock_error, llabs(mc_cfg.skew[i])); opt.check_prompt = false; }
  if (mc_cfg.kill_proc && fopt.stop_requested && W->base.timeout < 0) W->base.timeout = 20000000; // the stop request may never be made
  make_whole();
  mc_cfg.quiet_until = mc_argi("loud", 0) ? 0 : 500000000;
  for (int i = 0; i < 4; i++) { char key[4] = "at0"; key[2] += i; begins[i] = mc_argi(key, 0) ? mc_cfg.start_time + mc_argi(key, 0) * 1000000 : 0; began[i] = 0; }
  bool alone = mc_argi("visit", 0) == 7; // one federate and a false coordinator
  W->rti = alone ? -1 : mc_spawn("coordinator", rti_entry, nullptr);
  for (int k = 0; k < (alone ? 1 : W->nfed); k++) {
    make_fed(k);
    inst_reset(k);
    O->in[k].proc = mc_spawn("federate", fed_entry, (void*)(intptr_t)k);
  }
  visit_setup();
}
static void finish(int status) {
  FB& f = *W->f; int nf = W->nfed;
  if (W->rti < 0) { visit_judge(); return; }
  // Processes may be lost during the execution. The others terminate; federates in an orderly way if the coordinator is still there.
  int lp = -1, lost_code = 0;
  if (mc_cfg.kill_proc && mc_proc_exited(mc_cfg.kill_proc - 1, &lost_code) && lost_code == 137) lp = mc_cfg.kill_proc - 1;
  char when[64] = "";
  if (lp >= 0) snprintf(when, sizeof when, lp == W->rti ? "the coordinator is lost and " : "federate %d is lost and ", lp - 1);
  bool external = fopt.decentralized || lp >= 0;
  if (status == MC_DEADLOCK) { mc_fail("%sthe federation never terminates (deadlock)", when); return; }
  if (status == MC_HORIZON) { mc_fail("%sthe federation never terminates", when); return; }
  for (int k = -1; k < nf; k++) {
    int pr = k < 0 ? W->rti : O->in[k].proc; int code = -1;
    if (pr == lp) continue;
    if (!mc_proc_exited(pr, &code)) { mc_fail("%s%s %d did not exit", when, k < 0 ? "coordinator" : "federate", k); return; }
    if (code && (lp < 0 || lp != W->rti || code > 1)) { mc_fail("%s%s %d exits with code %d: %s", when, k < 0 ? "coordinator" : "federate", k, code, mc_output(pr)); return; }
  }
  if (lp >= 0) mc_count("executions with a lost process");
  if (lp >= 0 && lp == W->rti) { mc_outcome(2); return; }
  int lost = lp >= 0 ? lp - 1 : -1;
  for (int k = 0; k < nf; k++) {
    Inst& n = O->in[k];
    if (k == lost) continue;
    if (n.nrunning) { mc_fail("federate %d exited while a reaction was running", k); return; }
    int z = lost == 0 ? 1 : 0;
    if (n.start && O->in[z].start && n.start != O->in[z].start) { mc_fail("federates %d and %d start at different times", z, k); return; }
  }
  for (int k = 0; k < nf; k++) for (int j = 0; j < nf; j++) if (k != lost && O->in[k].start && O->in[k].start < began[1 + j] + (mc_argi("sync", 0) ? 0 : mc_cfg.skew[O->in[j].proc])) { mc_fail("federate %d starts at %lld, before federate %d joins at %lld", k, (long long)O->in[k].start, j, (long long)began[1 + j]); return; }
  if (!visit_judge()) return;
  if (mc_argi("sync", 0) && !judge_clock()) return;
  Tag stop{-1, 0}, ends[4]; bool agree = true;
  for (int k = 0; k < nf; k++) {
    if (k == lost) continue;
    Tag s = ends[k] = shutdown_of(k);
    if (s.t < 0) { mc_fail("federate %d never executes its shutdown reactions", k); return; }
    // a federate that has reached its timeout before the others agree to stop earlier has left
    if (fopt.stop_requested && W->base.timeout >= 0 && s == Tag{W->base.timeout, 0}) { agree = false; continue; }
    if (stop.t >= 0 && !(s == stop)) { mc_fail("federates 0 and %d shut down at different tags %s and %s", k, tagstr(stop).c_str(), tagstr(s).c_str()); return; }
    stop = s;
  }
  if (stop.t < 0) { stop = {W->base.timeout, 0}; agree = true; }
  if (fopt.stop_requested) {
    bool any = false;
    for (int k = 0; k < nf; k++) for (auto& s : O->in[k].stops) { any = true; if (!(s.g0 < stop)) { mc_fail("the federation shuts down at %s, not after tag %s at which federate %d requested it", tagstr(stop).c_str(), tagstr(s.g0).c_str(), k); return; } }
    if (!any && W->base.timeout < 0 && lost < 0) { mc_fail("the federation shuts down though nobody requested it"); return; }
  }
  if (external) make_whole(true);
  // contents of messages
  RefIn ri; ri.p = &W->whole; ri.g = &W->wg;
  for (auto& l : f.links) {
    Inst &a = O->in[f.fed[(int)W->base.port[l.src].reactor]], &b = O->in[f.fed[(int)W->base.port[l.dst].reactor]];
    auto &s = a.sent[l.idx_out], &g = b.got[l.idx_in];
    size_t e = (size_t)(&l - &f.links[0]);
    if (lost >= 0 && &b == &O->in[lost]) continue;
    for (size_t i = 0; i < g.size(); i++) {
      if (i >= s.size()) { mc_fail("connection %zu: message %zu is received but was never sent", e, i); return; }
      if (g[i].length != s[i].length || g[i].content != s[i].content) { mc_fail("connection %zu: message %zu of %zu bytes arrives as %zu %s bytes", e, i, s[i].length, g[i].length, g[i].length == s[i].length ? "other" : ""); return; }
      Tag want = delayed(s[i].g, l.delay);
      if (l.physical) { if (g[i].g.t + 1000 + opt.clock_error < s[i].at) { mc_fail("connection %zu: message %zu sent at physical time %lld is handled at %s", e, i, (long long)s[i].at, tagstr(g[i].g).c_str()); return; } }
      else if (fopt.decentralized ? g[i].g < want : !(g[i].g == want)) { mc_fail("connection %zu: message %zu sent for tag %s is handled at %s", e, i, tagstr(want).c_str(), tagstr(g[i].g).c_str()); return; }
    }
    if (lost >= 0 && &a == &O->in[lost]) continue;
    for (size_t i = g.size(); i < s.size(); i++) if (!l.physical && !fopt.decentralized && delayed(s[i].g, l.delay) <= ends[f.fed[(int)W->base.port[l.dst].reactor]]) { mc_fail("connection %zu: message %zu sent for tag %s is never handled", e, i, tagstr(delayed(s[i].g, l.delay)).c_str()); return; }
  }
  if (fopt.decentralized && !judge_late()) return;
  if (fopt.sloppy || !agree) { mc_outcome(1); return; }
  // external choices
  std::map<std::pair<int, int>, Tag> seen;
  for (int k = 0; k < nf; k++) {
    Inst& n = O->in[k];
    if (k == lost) continue;
    for (int r = 0; r < W->base.nreactor; r++) for (auto& q : n.recs[r]) {
      const ls_reaction& rx = n.p.reaction[q.rx];
      if (rx.deadline >= 0 || rx.has_stp) ri.kinds[std::make_tuple(q.rx, q.g.t, q.g.m)] = q.kind;
      for (auto& rd : q.reads) {
        int a = -1;
        if (rd.slot < rx.ntrig) { if (rx.trig[rd.slot].kind == LT_ACTION) a = rx.trig[rd.slot].idx; } else if (rx.src[rd.slot - rx.ntrig] >= 64) a = rx.src[rd.slot - rx.ntrig] & 63;
        if (a >= 0 && a < W->base.naction && W->base.action[a].physical && rd.present) seen[{a, rd.v}] = q.g;
      }
    }
    for (auto& l : f.links) if ((l.physical || external) && f.fed[(int)W->base.port[l.dst].reactor] == k) {
      size_t e = (size_t)(&l - &f.links[0]); int a = W->whole.reaction[W->rx[e]].trig[0].idx;
      for (int r = W->base.nreactor; r < n.p.nreactor; r++) for (auto& q : n.recs[r]) for (auto& rd : q.reads) {
        const ls_reaction& rx = n.p.reaction[q.rx];
        if (rx.trig[0].kind == LT_ACTION && n.p.action[(int)rx.trig[0].idx].netin == l.idx_in && rd.slot == 0 && rd.present) ri.ext.push_back({a, rd.v, q.g});
      }
    }
    for (size_t c = 0; c < n.calls.size(); c++) {
      auto it = seen.find({n.calls[c].action, (int)c + 1});
      if (it == seen.end()) { if (n.calls[c].ended && n.calls[c].t1 + W->base.action[n.calls[c].action].min_delay + n.calls[c].extra < stop.t - 10000) { mc_fail("event of call %zu of federate %d (physical time %lld) was lost", c + 1, k, (long long)n.calls[c].t1); return; } continue; }
      if (it->second <= n.calls[c].g0) { mc_fail("event of call %zu of federate %d occurs at tag %s, not later than tag %s processed before the call", c + 1, k, tagstr(it->second).c_str(), tagstr(n.calls[c].g0).c_str()); return; }
      if (it->second.t < n.calls[c].t0) { mc_fail("event of call %zu of federate %d made at %lld has the earlier tag %s", c + 1, k, (long long)n.calls[c].t0, tagstr(it->second).c_str()); return; }
    }
  }
  for (auto& s : seen) ri.ext.push_back({s.first.first, s.first.second, s.second});
  std::sort(ri.ext.begin(), ri.ext.end(), [](const ExtEvent& a, const ExtEvent& b) { return a.g < b.g; });
  if (fopt.stop_requested) { ri.has_stop = true; ri.stop = stop; }
  RefOut ro; ref_run(ri, ro);
  if (!ro.err.empty()) { mc_fail("%s", ro.err.c_str()); return; }
  if (!(ro.stop == stop)) { mc_fail("the federation shuts down at %s; the unfederated program at %s", tagstr(stop).c_str(), tagstr(ro.stop).c_str()); return; }
  uint64_t h = 1;
  for (int r = 0; r < W->base.nreactor; r++) {
    int k = f.fed[r];
    if (k == lost) continue;
    auto &a = ro.recs[r], &b = O->in[k].recs[r];
    for (size_t i = 0; i < a.size() || i < b.size(); i++) {
      if (i >= a.size()) { mc_fail("federate %d, reactor %d: unexpected %s", k, r, recstr(b[i]).c_str()); return; }
      if (i >= b.size()) { mc_fail("federate %d, reactor %d: %s never happens", k, r, recstr(a[i]).c_str()); return; }
      if (a[i].rx != b[i].rx || a[i].kind != b[i].kind || !(a[i].g == b[i].g) || !same_reads(a[i], b[i])) { mc_fail("federate %d, reactor %d, execution %zu: unfederated %s, federated %s", k, r, i, recstr(a[i]).c_str(), recstr(b[i]).c_str()); return; }
      if (a[i].state != b[i].state) { mc_fail("federate %d, reactor %d, execution %zu (%s): state differs", k, r, i, recstr(a[i]).c_str()); return; }
      h = mc_hash(h, mc_hash(mc_hash(b[i].rx * 4 + b[i].kind, (uint64_t)b[i].g.t), b[i].state));
    }
  }
  mc_outcome(h);
}
int main(int argc, char** argv) {
  O = new Obs(); W = new World();
  const char* sc = getenv("SCEN");
  if (!sc) { for (auto& s : fscens()) printf("%s\n", s.first.c_str()); return 0; }
  for (auto& s : fscens()) if (s.first == sc) { the = s.second; the_name = s.first.c_str(); }
  if (!the) { fprintf(stderr, "no scenario %s\n", sc); return 2; }
  mc_cfg.name = the_name;
  mc_cfg.max_steps = 60000; mc_cfg.stack_kb = 256; mc_cfg.max_jump = 2000000000; mc_cfg.max_time = 10000000000LL;
  mc_keep_output = true;
  return mc_main(argc, argv, setup, finish);
}
