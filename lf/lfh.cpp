#include "lfh.h"
#include <stdio.h>
#include <stdlib.h>
#include <algorithm>
#include <set>
Obs* O;
Opt opt;
static std::vector<Scen>& scens() { static auto* v = new std::vector<Scen>; return *v; }
void add_scen(const char* n, scen_f f) { scens().push_back({n, f}); }
static const int64_t MIN_SLEEP = 10000; // documented tolerance: waits shorter than this are skipped
std::string tagstr(Tag g) { char b[60]; if (g.t == INT64_MAX) return "forever"; snprintf(b, sizeof b, "(%lld,%u)", (long long)g.t, g.m); return b; }
static char robj[MAXI][LS_MAXR], pobj[MAXI][LS_MAXP], tagobj[MAXI], asyncobj[MAXI], wdobj[MAXI];
static const char* kname[] = {"body", "deadline handler", "STP handler", "watchdog"};

bool is_shutdown(const ls_prog& p, int x) { for (int k = 0; k < p.reaction[x].ntrig; k++) if (p.reaction[x].trig[k].kind == LT_SHUTDOWN) return true; return false; }
void inst_reset(int i) {
  Inst& n = O->in[i];
  n.used = true; n.start = 0;
  for (int r = 0; r < LS_MAXR; r++) { n.recs[r].clear(); n.sched[r].clear(); n.open[r] = -1; }
  for (int x = 0; x < LS_MAXX; x++) { n.begin_at[x] = n.end_at[x] = INT64_MIN; n.ran[x] = n.running[x] = false; }
  n.nexec = n.nrunning = 0; n.any = false; n.last = {-1, 0}; n.calls.clear(); n.stops.clear(); memset(n.wd, 0, sizeof n.wd); n.bars.clear(); n.barriers = false; n.advanced = false; n.intended.clear(); n.notes.clear(); n.last_new = 0; for (int k = 0; k < LS_MAXNET; k++) { n.sent[k].clear(); n.got[k].clear(); } n.mark = 0; n.phys.clear(); n.phys_open.clear(); n.phys_max = INT64_MIN;
  ls_analyse(&n.p, &n.g);
  for (int t = 0; t < n.p.nthread; t++) for (int k = 0; k < n.p.thread[t].n; k++) if (n.p.thread[t].what[k] >= 2) n.advanced = n.barriers = true;
  for (int x = 0; x < n.p.nreaction; x++) for (int k = 0; k < n.p.reaction[x].nbody; k++) if (n.p.reaction[x].body[k].op == LO_ADVANCE || n.p.reaction[x].body[k].op == LO_WAITFLAG || (n.p.reaction[x].body[k].op == LO_JOIN && !is_shutdown(n.p, x))) n.advanced = true;
  for (int w = 0; w < n.p.nwd; w++) for (int k = 0; k < n.p.wd[w].nbody; k++) if (n.p.wd[w].body[k].op == LO_ADVANCE) n.advanced = true;
}
extern "C" {
const ls_prog* hx_prog(int i) { return &O->in[i].p; }
const ls_graph* hx_graph(int i) { return &O->in[i].g; }
void hx_start(int i, int64_t start, int x) { (void)x; Inst& n = O->in[i]; if (n.start && n.start != start) mc_fail("start time changed during execution"); n.start = start; if (!n.mark) n.mark = mc_alloc_seq(); }
static void port_touch(Inst& n, int i, int x) {
  const ls_reaction& r = n.p.reaction[x];
  for (int k = 0; k < r.ntrig + r.nsrc; k++) {
    int port = -1;
    if (k < r.ntrig) { if (r.trig[k].kind == LT_PORT) port = r.trig[k].idx; } else if (r.src[k - r.ntrig] < 64) port = r.src[k - r.ntrig];
    if (port >= 0 && n.g.source[port] >= 0) mc_touch(&pobj[i][n.g.source[port]], false);
  }
}
static void wd_overdue(Inst& n);
void hx_begin(int i, int x, int kind, int64_t t, uint32_t m) {
  Inst& n = O->in[i];
  const ls_reaction& r = n.p.reaction[x];
  mc_visible(&robj[i][(int)r.reactor], true, "reaction begins");
  port_touch(n, i, x);
  Tag g{t, m};
  if (mc_verbose) mc_logf("reaction %d (reactor %d) %s begins at tag %s", x, r.reactor, kname[kind], tagstr(g).c_str());
  bool fresh = !n.any || !(g == n.last);
  mc_touch(&tagobj[i], fresh);
  int64_t now = mc_now() - n.start;
  if (n.any && g < n.last) mc_fail("reaction %d runs at tag %s after tag %s was processed", x, tagstr(g).c_str(), tagstr(n.last).c_str());
  if (fresh && n.nrunning) mc_fail("reaction %d starts at tag %s while a reaction of tag %s is still running", x, tagstr(g).c_str(), tagstr(n.last).c_str());
  if (!n.any && !(g == Tag{0, 0}) && false) mc_fail("first tag is %s", tagstr(g).c_str());
  if (fresh) n.last_new = now;
  n.any = true; n.last = g;
  for (int w = 0; w < n.p.nwd; w++) if (n.wd[w].running && n.p.wd[w].reactor == r.reactor) mc_fail("reaction %d runs concurrently with the handler of watchdog %d of its reactor", x, w);
  wd_overdue(n);
  for (int y = 0; y < n.p.nreaction; y++) {
    if (n.running[y] && n.p.reaction[y].reactor == r.reactor) mc_fail("reactions %d and %d of reactor %d run at the same time", y, x, r.reactor);
    if (n.running[y] && n.g.before[y][x]) mc_fail("reaction %d starts before reaction %d, on which it depends, has finished", x, y);
    if (y != x && n.g.before[x][y] && n.ran[y] && n.ran_at[y] == g) mc_fail("reaction %d runs after reaction %d, which depends on it, at tag %s", x, y, tagstr(g).c_str());
  }
  if (n.ran[x] && n.ran_at[x] == g) mc_fail("reaction %d executed twice at tag %s", x, tagstr(g).c_str());
  if (fresh) for (auto& q : n.bars) if (!(g < q.b)) mc_fail("tag %s is processed while a barrier at tag %s, raised at tag %s, is in place", tagstr(g).c_str(), tagstr(q.b).c_str(), tagstr(q.cur).c_str());
  // physical time
  if (!n.p.fast && now < t - MIN_SLEEP - opt.clock_error) mc_fail("reaction %d at tag %s starts %lld ns before physical time reaches its tag", x, tagstr(g).c_str(), (long long)(t - now));
  if (!n.p.fast && opt.check_prompt && !n.advanced && !mc_cfg.time_deviation && mc_cfg.tick == 0 && now > t) {
    // an event in the past of the clock is fine only when it was created late
    bool late = false;
    for (auto& s : n.stops) if (s.async && now <= s.t1) late = true;
    for (auto& s : n.stops) if (s.async && !s.ended) late = true;
    if (!late) mc_fail("reaction %d at tag %s starts at physical time %lld, %lld ns late though nothing delayed it", x, tagstr(g).c_str(), (long long)now, (long long)(now - t));
  }
  if (n.p.fast && opt.check_prompt && !n.advanced && !mc_cfg.time_deviation && mc_cfg.tick == 0 && n.calls.empty() && n.stops.empty() && now > 0 && n.p.nthread == 0) mc_fail("fast execution waited for physical time (reaction %d at tag %s, physical %lld)", x, tagstr(g).c_str(), (long long)now);
  if (kind == HK_DEADLINE && !(r.deadline == 0 || now > t + r.deadline)) mc_fail("deadline handler of reaction %d at tag %s invoked at physical time %lld, before the deadline %lld passed", x, tagstr(g).c_str(), (long long)now, (long long)(t + r.deadline));
  if (kind == HK_BODY && r.deadline >= 0) {
    int64_t lb = n.last_new; // this reaction was started after its tag was
    if (now == lb) lb = now;
    int64_t tl = O->thread_last[mc_self()]; if (tl != INT64_MIN && tl - n.start > lb) lb = tl - n.start;
    for (int y = 0; y < n.p.nreaction; y++) if (n.g.before[y][x] && n.ran[y] && n.ran_at[y] == g && n.end_at[y] > lb) lb = n.end_at[y];
    if (fresh) lb = tl != INT64_MIN ? std::max<int64_t>(tl - n.start, t - MIN_SLEEP) : t - MIN_SLEEP;
    if (!mc_cfg.time_deviation && !n.advanced) lb = now;
    if (r.deadline == 0 || lb > t + r.deadline) mc_fail("reaction %d at tag %s runs its body though its deadline %lld had passed when it was started (physical %lld)", x, tagstr(g).c_str(), (long long)r.deadline, (long long)lb);
  }
  n.running[x] = true; n.nrunning++; n.ran[x] = true; n.ran_at[x] = g; n.begin_at[x] = now;
  Rec rec; rec.rx = x; rec.kind = kind; rec.g = g; rec.state = 0; rec.tid = mc_self(); rec.nth = n.nexec++;
  n.open[(int)r.reactor] = (int)n.recs[(int)r.reactor].size();
  n.recs[(int)r.reactor].push_back(rec);
  O->thread_last[mc_self()] = mc_now();
}
void hx_phys(int i, int phase, int64_t v) {
  Inst& n = O->in[i]; int me = mc_self();
  mc_touch(&asyncobj[i], true);
  if (!phase) { n.phys_open[me] = {mc_now(), 0, n.phys_max, 0}; return; }
  auto q = n.phys_open[me]; q.t1 = mc_now(); q.v = v; n.phys.push_back(q);
  if (v < q.lo) mc_fail("physical time runs backwards: %lld after %lld had been returned", (long long)(v - n.start), (long long)(q.lo - n.start));
  if (v > n.phys_max) n.phys_max = v;
  if (mc_verbose) mc_logf("physical time %lld (%+lld)", (long long)(v - n.start), (long long)(v - q.t1));
}
void hx_tag(int i, int x, int64_t t, uint32_t m) {
  Inst& n = O->in[i];
  Tag g = n.ran_at[x];
  if (!(g == Tag{t, m})) mc_fail("tag changed from %s to %s while reaction %d was running", tagstr(g).c_str(), tagstr({t, m}).c_str(), x);
}
void hx_read(int i, int x, int slot, bool present, bool has, int v) {
  Inst& n = O->in[i]; int r = n.p.reaction[x].reactor;
  if (mc_verbose) mc_logf("reaction %d reads slot %d: %s %d", x, slot, present ? has ? "value" : "present" : "absent", v);
  n.recs[r][n.open[r]].reads.push_back({slot, present, has, v});
}
void hx_end(int i, int x, int kind, uint64_t state) {
  (void)kind;
  Inst& n = O->in[i];
  const ls_reaction& r = n.p.reaction[x];
  mc_visible(&robj[i][(int)r.reactor], true, "reaction ends");
  for (int e = 0; e < r.neff; e++) mc_touch(&pobj[i][(int)r.eff[e]], true);
  mc_touch(&tagobj[i], false);
  if (mc_verbose) mc_logf("reaction %d ends", x);
  n.recs[(int)r.reactor][n.open[(int)r.reactor]].state = state;
  n.running[x] = false; n.nrunning--; n.end_at[x] = mc_now() - n.start;
  O->thread_last[mc_self()] = mc_now();
}
int hx_async_begin(int i, int action, int64_t extra) {
  Inst& n = O->in[i];
  mc_visible(&asyncobj[i], true, "schedule call begins");
  mc_touch(&tagobj[i], false);
  AsyncCall c; c.action = action; c.extra = extra; c.tid = mc_self(); c.t0 = mc_now() - n.start; c.t1 = 0; c.g0 = n.any ? n.last : Tag{-1, 0}; c.ended = false; c.handle = -2; c.in_reaction = false; c.wd = false; c.exact = 0;
  n.calls.push_back(c);
  if (mc_verbose) mc_logf("call %d: action %d extra delay %lld begins", (int)n.calls.size(), action, (long long)extra);
  return (int)n.calls.size();
}
void hx_async_end(int i, int action, int seq, int handle) {
  (void)action;
  Inst& n = O->in[i]; mc_touch(&asyncobj[i], true);
  AsyncCall& c = n.calls[seq - 1]; c.t1 = mc_now() - n.start; c.ended = true; c.handle = handle;
  if (mc_verbose) mc_logf("call %d returns %d", seq, handle);
}
void hx_stop_called(int i, int phase, bool async) {
  Inst& n = O->in[i];
  if (phase == 0) { mc_visible(&asyncobj[i], true, "stop call begins"); mc_touch(&tagobj[i], false); n.stops.push_back({mc_now() - n.start, 0, n.any ? n.last : Tag{-1, 0}, async, false}); if (mc_verbose) mc_logf("stop request begins"); }
  else { mc_touch(&asyncobj[i], true); for (auto& s : n.stops) if (!s.ended) { s.ended = true; s.t1 = mc_now() - n.start; break; } if (mc_verbose) mc_logf("stop request returns"); }
}
void hx_sched(int i, int x, int a, int64_t extra, int handle) {
  Inst& n = O->in[i];
  if (mc_verbose) mc_logf("reaction %d schedules action %d with extra delay %lld: %d", x, a, (long long)extra, handle);
  n.sched[(int)n.p.reaction[x].reactor].push_back({x, a, extra, handle, n.ran_at[x], {0, 0}, false});
}
void hx_payload(int i, void* p, int what) {
  (void)i; size_t sz;
  if (what == 3 || what == 1) { if (!mc_is_live(p, &sz)) mc_fail("payload %s after it was released", what == 3 ? "read" : "released again"); }
  if (mc_verbose) mc_logf("payload %p %s", p, what == 0 ? "created" : what == 1 ? "destroyed" : what == 2 ? "copied" : "read");
  if (what != 3) { char k[20]; snprintf(k, sizeof k, "payload%d", what); O->in[i].notes[k].push_back((int64_t)p); }
}
static bool strict(Inst& n) { return opt.check_prompt && !n.p.fast && !n.advanced && !mc_cfg.time_deviation && mc_cfg.tick == 0; }
static void wd_overdue(Inst& n) {
  int64_t now = mc_now() - n.start;
  if (strict(n)) for (int w = 0; w < n.p.nwd; w++) if (n.wd[w].set && !n.wd[w].running && now > n.wd[w].hi + MIN_SLEEP) mc_fail("watchdog %d expired at %lld but has not fired at physical time %lld", w, (long long)n.wd[w].hi, (long long)now);
}
void hx_wd(int i, int w, int what, int64_t arg) {
  Inst& n = O->in[i]; WdSt& s = n.wd[w]; int r = n.p.wd[w].reactor; int64_t now = mc_now() - n.start;
  mc_visible(&robj[i][r], true, "watchdog");
  static const char* wn[] = {"start", "stop", "handler begins", "handler ends"};
  if (mc_verbose) mc_logf("watchdog %d %s %lld", w, wn[what], (long long)arg);
  wd_overdue(n);
  bool in_handler = false; for (int v = 0; v < n.p.nwd; v++) in_handler |= n.wd[v].running && n.p.wd[v].reactor == r;
  switch (what) {
  case 0:
    if (in_handler) mc_touch(&tagobj[i], false);
    s.set = true; s.lo = (n.any ? n.last.t : 0) + n.p.wd[w].timeout + arg; s.hi = in_handler ? std::max(s.lo, now + n.p.wd[w].timeout + arg) : s.lo;
    if (s.hi < now) s.hi = now;
    break;
  case 1: s.set = false; break;
  case 2:
    for (int y = 0; y < n.p.nreaction; y++) if (n.running[y] && n.p.reaction[y].reactor == r) mc_fail("handler of watchdog %d runs concurrently with reaction %d of its reactor", w, y);
    if (in_handler) mc_fail("two watchdog handlers of reactor %d run at the same time", r);
    if (!s.set) mc_fail("watchdog %d fires at %lld though it is stopped or has fired already", w, (long long)now);
    if (now < s.lo) mc_fail("watchdog %d fires at %lld, before it expires at %lld", w, (long long)now, (long long)s.lo);
    s.set = false; s.running = true; s.fired++;
    break;
  case 3: s.running = false; break;
  }
}
void hx_barrier(int i, int what, int64_t bt, uint32_t bm, int64_t ct, uint32_t cm) {
  Inst& n = O->in[i];
  mc_visible(&tagobj[i], true, "barrier");
  if (mc_verbose) mc_logf(what ? "barrier is lifted" : "barrier raised at tag %s, current tag %s", tagstr({bt, bm}).c_str(), tagstr({ct, cm}).c_str());
  if (what) { for (size_t k = 0; k < n.bars.size(); k++) if (n.bars[k].tid == mc_self()) { n.bars.erase(n.bars.begin() + k); break; } }
  else n.bars.push_back({mc_self(), {bt, bm}, {ct, cm}});
}
void hx_exact(int i, int seq, int64_t t, uint32_t m, int64_t ct, uint32_t cm) { Inst& n = O->in[i]; AsyncCall& c = n.calls[seq - 1]; c.at = {t, m}; c.exact = Tag{ct, cm} < c.at ? 1 : 2; }
void hx_sizes(int i, size_t token, size_t payload) { Inst& n = O->in[i]; n.sizes[0] = token; n.sizes[1] = payload; n.sizes[2] = sizeof(int); }
void hx_flag(int i, int f, int wait) { (void)i; if (wait) mc_wait_flag(&O->flags[f]); else { mc_visible(&O->flags[f], true, "flag"); O->flags[f] = 1; } }
void hx_wire(int i, int net, int dir, uint64_t content, size_t length, int64_t t, uint32_t m) { Inst& n = O->in[i]; if (mc_verbose) mc_logf(dir ? "network input %d: %zu bytes for tag %s" : "network output %d: %zu bytes at tag %s", net, length, tagstr({t, m}).c_str()); (dir ? n.got : n.sent)[net].push_back({content, length, {t, m}, mc_now() - n.start}); }
void hx_intended(int i, int x, int slot, int64_t t, uint32_t m) { Inst& n = O->in[i]; n.intended[std::make_tuple(x, slot, n.ran_at[x])] = Tag{t, m}; }
void hx_note(int i, const char* w, int64_t v) { if (!strcmp(w, "payload corrupted")) mc_fail("payload corrupted (value %lld)", (long long)v); if (mc_verbose) mc_logf("%s: %lld", w, (long long)v); O->in[i].notes[w].push_back(v); }
}

std::string recstr(const Rec& r) { std::string s = "reaction " + std::to_string(r.rx) + " " + kname[r.kind] + " at " + tagstr(r.g); if (!r.reads.empty()) { s += " reading"; for (auto& q : r.reads) s += q.present ? q.has ? " " + std::to_string(q.v) : " present" : " absent"; } return s; }
bool same_reads(const Rec& a, const Rec& b) { if (a.reads.size() != b.reads.size()) return false; for (size_t i = 0; i < a.reads.size(); i++) if (a.reads[i].present != b.reads[i].present || a.reads[i].has != b.reads[i].has || a.reads[i].v != b.reads[i].v) return false; return true; }

#ifdef TRACED
#include "../trace/judge.inc"
#endif
void inst_judge(int i, int status) {
  Inst& n = O->in[i];
  const ls_prog& p = n.p;
  int code = -1; bool ex = mc_proc_exited(n.proc, &code);
  if (status == MC_DEADLOCK) { mc_fail("the program never terminates (deadlock)"); return; }
  if (status == MC_HORIZON) { mc_fail("the program never terminates"); return; }
  if (!ex) { mc_fail("the program did not exit"); return; }
  if (opt.reject) {
    bool ran = false; for (int r = 0; r < p.nreactor; r++) ran |= !n.recs[r].empty();
    if (ran) mc_fail("the program runs in spite of a malformed command line");
    else if (code == 0) mc_fail("the program exits with code 0 after a malformed command line");
    mc_outcome(1);
    return;
  }
  if (code != 0) { mc_fail("the program exits with code %d: %s", code, mc_keep_output ? mc_output(n.proc) : ""); return; }
  if (n.nrunning) { mc_fail("the program exited while a reaction was running"); return; }
  RefIn ri; ri.p = &p; ri.g = &n.g;
  // observed external choices
  std::map<int, Tag> seen; Tag shut{-1, 0}; bool have_shut = false;
  for (int r = 0; r < p.nreactor; r++) for (auto& q : n.recs[r]) {
    const ls_reaction& rx = p.reaction[q.rx];
    if (rx.deadline >= 0 || rx.has_stp) ri.kinds[std::make_tuple(q.rx, q.g.t, q.g.m)] = q.kind;
    bool only = rx.ntrig == 1 && is_shutdown(p, q.rx);
    if (only && !have_shut) { have_shut = true; shut = q.g; }
    for (size_t k = 0; k < q.reads.size(); k++) {
      int slot = q.reads[k].slot; int a = -1;
      if (slot < rx.ntrig) { if (rx.trig[slot].kind == LT_ACTION) a = rx.trig[slot].idx; } else if (rx.src[slot - rx.ntrig] >= 64) a = rx.src[slot - rx.ntrig] & 63;
      if (a < 0 || !p.action[a].physical || !q.reads[k].present) continue;
      int seq = q.reads[k].v;
      if (!q.reads[k].has || seq < 1 || seq > (int)n.calls.size() || n.calls[seq - 1].action != a) { mc_fail("physical action %d is present with an unknown value at tag %s", a, tagstr(q.g).c_str()); return; }
      if (seen.count(seq) && !(seen[seq] == q.g)) { mc_fail("event of call %d occurs at two tags %s and %s", seq, tagstr(seen[seq]).c_str(), tagstr(q.g).c_str()); return; }
      seen[seq] = q.g;
    }
  }
  for (auto& s : seen) ri.ext.push_back({n.calls[s.first - 1].action, s.first, s.second});
  std::sort(ri.ext.begin(), ri.ext.end(), [](const ExtEvent& a, const ExtEvent& b) { return a.g < b.g; });
  RefOut ro; ref_run(ri, ro);
  bool async_stop = false; for (auto& s : n.stops) async_stop |= s.async;
  if (async_stop) {
    if (!have_shut) { mc_fail("a stop was requested but the shutdown reactions never ran"); return; }
    if (!(shut == ro.stop)) {
      bool ok = false;
      for (auto& s : n.stops) if (s.async && s.g0 < shut && shut.t <= s.t1) ok = true;
      if (!ok) { mc_fail("shutdown ran at tag %s, which is not a legitimate stop tag of any stop request", tagstr(shut).c_str()); return; }
      ri.has_stop = true; ri.stop = shut;
      ro = RefOut(); ref_run(ri, ro);
    }
  }
  if (!ro.err.empty()) { mc_fail("%s", ro.err.c_str()); return; }
  Tag stop = ro.stop;
  // physical events
  for (size_t k = 0; k < n.calls.size(); k++) {
    AsyncCall& c = n.calls[k]; const ls_action& a = p.action[c.action]; int64_t d = a.min_delay + (c.extra > 0 ? c.extra : 0);
    if (!c.ended) { mc_fail("schedule call %d never returned", (int)k + 1); return; }
    auto it = seen.find((int)k + 1);
    if (c.exact == 2) { if (it != seen.end()) mc_fail("an event for tag %s, which had passed, occurs", tagstr(c.at).c_str()); continue; }
    if (c.exact) {
      if (it == seen.end() ? c.at <= stop : !(it->second == c.at)) { mc_fail("the event delivered for tag %s occurs at %s", tagstr(c.at).c_str(), it == seen.end() ? "no tag" : tagstr(it->second).c_str()); return; }
      continue;
    }
    if (it == seen.end()) {
      if (c.t1 + d < stop.t - MIN_SLEEP && a.min_spacing == 0) { mc_fail("event of call %d (physical time %lld, delay %lld) was lost", (int)k + 1, (long long)c.t1, (long long)d); return; }
      if (c.handle > 0 && !async_stop && c.t1 + d < stop.t - MIN_SLEEP) { mc_fail("call %d returned a handle but its event never occurred", (int)k + 1); return; }
      continue;
    }
    Tag g = it->second;
    if (c.handle <= 0) { mc_fail("call %d returned %d, meaning that no event was created, but its event occurred at %s", (int)k + 1, c.handle, tagstr(g).c_str()); return; }
    if (g <= c.g0) { mc_fail("event of call %d occurs at tag %s, not later than tag %s processed before the call", (int)k + 1, tagstr(g).c_str(), tagstr(c.g0).c_str()); return; }
    if (g.t < c.t0 + d) { mc_fail("event of call %d made at %lld with delay %lld has the earlier tag %s", (int)k + 1, (long long)c.t0, (long long)d, tagstr(g).c_str()); return; }
    if (g.t > c.t1 + d + 1000 + (a.min_spacing ? a.min_spacing : 0) && g.t > c.g0.t + MIN_SLEEP) { mc_fail("event of call %d made before %lld with delay %lld has the later tag %s", (int)k + 1, (long long)c.t1, (long long)d, tagstr(g).c_str()); return; }
    for (size_t j = 0; j < k; j++) {
      AsyncCall& b = n.calls[j]; auto jt = seen.find((int)j + 1);
      if (jt == seen.end() || b.action != c.action) continue;
      int64_t db = a.min_delay + (b.extra > 0 ? b.extra : 0);
      if (b.tid == c.tid && db <= d && !(jt->second < g)) { mc_fail("events of calls %d and %d of one caller occur at %s and %s", (int)j + 1, (int)k + 1, tagstr(jt->second).c_str(), tagstr(g).c_str()); return; }
      if (a.min_spacing && std::abs(jt->second.t - g.t) < a.min_spacing) { mc_fail("events of calls %d and %d are closer than the minimum spacing", (int)j + 1, (int)k + 1); return; }
      if (jt->second == g) { mc_fail("two events of one action at tag %s", tagstr(g).c_str()); return; }
    }
  }
  if (opt.compare) {
    for (int r = 0; r < p.nreactor; r++) {
      auto &a = ro.recs[r], &b = n.recs[r];
      for (size_t k = 0; k < a.size() || k < b.size(); k++) {
        if (k >= a.size()) { mc_fail("reactor %d: unexpected %s (expected nothing more, stop tag %s)", r, recstr(b[k]).c_str(), tagstr(stop).c_str()); return; }
        if (k >= b.size()) { mc_fail("reactor %d: %s never happens", r, recstr(a[k]).c_str()); return; }
        if (a[k].rx != b[k].rx || a[k].kind != b[k].kind || !(a[k].g == b[k].g)) { mc_fail("reactor %d, execution %d: expected %s, observed %s", r, (int)k, recstr(a[k]).c_str(), recstr(b[k]).c_str()); return; }
        if (!same_reads(a[k], b[k])) { mc_fail("reactor %d, execution %d: expected %s, observed %s", r, (int)k, recstr(a[k]).c_str(), recstr(b[k]).c_str()); return; }
        if (a[k].state != b[k].state) { mc_fail("reactor %d, execution %d (%s): state differs", r, (int)k, recstr(a[k]).c_str()); return; }
      }
      if (opt.handles) {
        auto &sa = ro.sched[r], &sb = n.sched[r];
        for (size_t k = 0; k < sa.size() && k < sb.size(); k++) {
          if (sa[k].rx != sb[k].rx || sa[k].action != sb[k].action) break;
          if (sa[k].accepted && sa[k].at <= stop && sb[k].handle <= 0) { mc_fail("reaction %d schedules action %d at tag %s for %s: an event is created but the call returns %d", sa[k].rx, sa[k].action, tagstr(sa[k].g).c_str(), tagstr(sa[k].at).c_str(), sb[k].handle); return; }
          if (!sa[k].accepted && sa[k].at <= stop && sb[k].handle != 0) { mc_fail("reaction %d schedules action %d at tag %s: no event is created but the call returns %d", sa[k].rx, sa[k].action, tagstr(sa[k].g).c_str(), sb[k].handle); return; }
        }
      }
    }
  }
  if (strict(n)) for (int w = 0; w < p.nwd; w++) for (int x = 0; x < p.nreaction; x++)
    if (n.wd[w].set && n.end_at[x] > n.wd[w].hi + MIN_SLEEP) { mc_fail("watchdog %d expired at %lld but never fired", w, (long long)n.wd[w].hi); return; }
  // the tokens of events that are still queued when the program ends stay with those
  if (opt.check_leaks && n.mark && mc_live_sized(n.proc, n.mark, n.sizes, 3, mc_verbose)) { mc_fail("%zu tokens or payloads are not released at exit", mc_live_sized(n.proc, n.mark, n.sizes, 3, 0)); return; }
#ifdef TRACED
  judge_trace(i, ro);
#endif
  uint64_t h = 1; for (int w = 0; w < p.nwd; w++) h = mc_hash(h, n.wd[w].fired);
  for (int r = 0; r < p.nreactor; r++) for (auto& q : n.recs[r]) h = mc_hash(h, mc_hash(mc_hash(q.rx * 4 + q.kind, (uint64_t)q.g.t), q.state));
  mc_outcome(h);
}

#ifndef FED
static const Scen* the;
static void setup() {
  for (int i = 0; i < MAXI; i++) O->in[i].used = false;
  for (auto& t : O->thread_last) t = INT64_MIN;
  memset(O->flags, 0, sizeof O->flags);
  Inst& n = O->in[0];
  B b(n.p);
  n.p.workers = (int)mc_argi("workers", 2);
  opt = Opt();
  the->build(b);
  inst_reset(0);
  n.proc = mc_spawn("prog", lf_gen_main, nullptr);
}
static void finish(int status) { inst_judge(0, status); }
int main(int argc, char** argv) {
  O = new Obs();
  const char* sc = getenv("SCEN");
  if (!sc) { for (auto& s : scens()) printf("%s\n", s.name); return 0; }
  for (auto& s : scens()) if (!strcmp(s.name, sc)) the = &s;
  if (!the) { fprintf(stderr, "no scenario %s\n", sc); return 2; }
  mc_cfg.name = the->name;
  mc_keep_output = true;
  return mc_main(argc, argv, setup, finish);
}
#endif
