#include "lfref.h"
#include <algorithm>
#include <string.h>
static const Tag FOREVER_T = {INT64_MAX, UINT32_MAX};
namespace {
struct Ev { Tag g; int kind; int idx; bool has; int v; int64_t order; int mode; bool susp; int64_t remaining; uint32_t mrem; };
struct Ref {
  const RefIn& in; RefOut& o; const ls_prog& p; const ls_graph& gr;
  std::vector<Ev> q; Tag cur{0, 0}; Tag stop = FOREVER_T; int64_t order = 0;
  uint64_t state[LS_MAXR] = {0}; int count[LS_MAXX] = {0}; Tag last[LS_MAXA]; bool has_last[LS_MAXA] = {0};
  bool pp[LS_MAXP]; int pv[LS_MAXP]; bool ap[LS_MAXA]; bool ah[LS_MAXA]; int av[LS_MAXA]; bool trig[LS_MAXX]; bool done[LS_MAXX];
  // modes
  int mcur[LS_MAXR], mnext[LS_MAXR], mchg[LS_MAXR]; bool had[LS_MAXM] = {0}, needs[LS_MAXM] = {0}, nreset[LS_MAXM] = {0}; bool modal[LS_MAXR]; bool dummy = false; Tag dummy_at;
  Ref(const RefIn& i, RefOut& ou) : in(i), o(ou), p(*i.p), gr(*i.g) {}
  int encl(int reactor, int mode) { return mode >= 0 ? mode : p.parent_mode[reactor]; }
  bool active(int mode) { while (mode >= 0) { int r = p.mode[mode].reactor; if (mcur[r] != mode) return false; mode = p.parent_mode[r]; } return true; }
  int ev_mode(int kind, int idx) { return kind == 0 ? encl(p.timer[idx].reactor, p.timer[idx].mode) : encl(p.action[idx].reactor, p.action[idx].mode); }
  Tag delayed(Tag g, int64_t d) { return d == 0 ? Tag{g.t, g.m + 1} : Tag{g.t + d, 0}; }
  void put(Tag g, int kind, int idx, bool has, int v) { q.push_back({g, kind, idx, has, v, order++, ev_mode(kind, idx), false, 0, 0}); }
  Ev* find(int idx, Tag g) { for (auto& e : q) if (e.kind == 1 && e.idx == idx && !e.susp && e.g == g) return &e; return nullptr; }
  // schedule a logical action at the current tag
  bool sched(int a, int64_t extra, bool has, int v, Tag* at) {
    const ls_action& s = p.action[a];
    if (extra < 0) extra = 0;
    Tag g = delayed(cur, s.min_delay + extra);
    *at = g;
    if (s.min_spacing <= 0) {
      while (find(a, g)) g.m++;
    } else if (has_last[a]) {
      int64_t earliest = last[a].t + s.min_spacing;
      if (earliest > g.t) {
        if (s.policy == LP_DROP) return false;
        if (s.policy == LP_REPLACE) {
          Ev* f = find(a, last[a]);
          if (f) { f->has = has; f->v = v; *at = f->g; return false; }
        }
        g = Tag{earliest, 0};
      }
    }
    *at = g;
    if (stop < g) return false;
    last[a] = g; has_last[a] = true;
    put(g, 1, a, has, v);
    return true;
  }
  void trigger(int x) { if (active(encl(p.reaction[x].reactor, p.reaction[x].mode))) trig[x] = true; }
  void trigger_of(int kind, int idx) { for (int x = 0; x < p.nreaction; x++) for (int k = 0; k < p.reaction[x].ntrig; k++) if (p.reaction[x].trig[k].kind == kind && (idx < 0 || p.reaction[x].trig[k].idx == idx)) trigger(x); }
  void exec(int x) {
    const ls_reaction& rx = p.reaction[x];
    int kind = HK_BODY;
    if (rx.deadline >= 0 || rx.has_stp) { auto it = in.kinds.find(std::make_tuple(x, cur.t, cur.m)); if (it != in.kinds.end()) kind = it->second; else if (rx.deadline == 0) kind = HK_DEADLINE; }
    const ls_stmt* st = kind == HK_BODY ? rx.body : rx.handler; int n = kind == HK_BODY ? rx.nbody : rx.nhandler;
    if (kind == HK_DEADLINE && !rx.has_handler) { done[x] = true; return; }
    Rec r; r.rx = x; r.kind = kind; r.g = cur;
    uint64_t s = state[(int)rx.reactor];
    s = ls_mix(s, (uint64_t)(x * 4 + kind)); s = ls_mix(s, (uint64_t)cur.t); s = ls_mix(s, cur.m);
    uint32_t present = 0; bool sh[9] = {0}; int sv[9] = {0};
    for (int i = 0; i < rx.ntrig + rx.nsrc; i++) {
      int k, idx;
      if (i < rx.ntrig) { k = rx.trig[i].kind; idx = rx.trig[i].idx; } else { idx = rx.src[i - rx.ntrig]; k = idx >= 64 ? LT_ACTION : LT_PORT; idx &= 63; }
      bool pres = false, has = false; int v = 0;
      if (k == LT_ACTION) { pres = ap[idx]; has = pres && ah[idx]; v = has ? av[idx] : 0; }
      else if (k == LT_PORT) { int src = gr.source[idx]; pres = src >= 0 && pp[src]; has = pres; v = pres ? pv[src] : 0; }
      else continue;
      if (pres) present |= 1u << i;
      sh[i] = pres; sv[i] = v;
      r.reads.push_back({i, pres, has, v});
      s = ls_mix(s, pres ? (uint64_t)(has ? v : -1) + 1 : 0);
    }
    state[(int)rx.reactor] = s; r.state = s;
    int cnt = count[x]++;
    for (int i = 0; i < n; i++) {
      const ls_stmt* z = &st[i];
      if (!ls_guard(z, cnt, s, present)) continue;
      int v = ls_value(s, x, i);
      switch (z->op) {
      case LO_SET: if (z->arg) v = v % 99999 + 1; pp[(int)z->target] = true; pv[(int)z->target] = v; break;
      case LO_SCHED: case LO_SCHEDCOPY: {
        int a = z->target; if (p.action[a].physical) break;
        Tag at; bool ok = sched(a, z->arg, p.action[a].value, v, &at);
        o.sched[(int)rx.reactor].push_back({x, a, z->arg, 0, cur, at, ok});
        break;
      }
      case LO_SCHEDTOK: if (sh[(int)z->garg2]) { Tag at; bool ok = sched(z->target, z->arg, true, sv[(int)z->garg2], &at); o.sched[(int)rx.reactor].push_back({x, z->target, z->arg, 0, cur, at, ok}); } break;
      case LO_STOP: { Tag s2{cur.t, cur.m + 1}; if (s2 < stop) stop = s2; break; }
      case LO_MODE: { int r2 = p.mode[(int)z->target].reactor; mnext[r2] = z->target; mchg[r2] = (int)z->arg; break; }
      case LO_MUTATE: if (z->target >= 0 && sh[(int)z->garg2]) { pp[(int)z->target] = true; pv[(int)z->target] = sv[(int)z->garg2] + 7; } break;
      case LO_FORWARD: if (sh[(int)z->garg2]) { pp[(int)z->target] = true; pv[(int)z->target] = sv[(int)z->garg2]; } break;
      }
    }
    o.recs[(int)rx.reactor].push_back(r);
    done[x] = true; trig[x] = false;
    for (int e = 0; e < rx.neff; e++)
      if (pp[(int)rx.eff[e]])
        for (int ip = 0; ip < p.nport; ip++) if (p.port[ip].input && gr.source[ip] == rx.eff[e])
          for (int y = 0; y < p.nreaction; y++) for (int k = 0; k < p.reaction[y].ntrig; k++)
            if (p.reaction[y].trig[k].kind == LT_PORT && p.reaction[y].trig[k].idx == ip) { if (done[y]) { o.err = "reference: reaction triggered after it ran"; } else trigger(y); }
  }
  void mode_triggers() {
    for (int x = 0; x < p.nreaction; x++) {
      int m = encl(p.reaction[x].reactor, p.reaction[x].mode);
      if (m < 0 || !active(m)) continue;
      for (int k = 0; k < p.reaction[x].ntrig; k++) {
        if (p.reaction[x].trig[k].kind == LT_STARTUP && needs[m]) trig[x] = true;
        if (p.reaction[x].trig[k].kind == LT_RESET && nreset[m]) trig[x] = true;
      }
    }
    for (int r = 0; r < p.nreactor; r++) if (modal[r] && active(mcur[r])) { int m = mcur[r]; if (needs[m]) { had[m] = true; needs[m] = false; } nreset[m] = false; }
  }
  void shutdown() {
    for (int x = 0; x < p.nreaction; x++) {
      int m = encl(p.reaction[x].reactor, p.reaction[x].mode);
      for (int k = 0; k < p.reaction[x].ntrig; k++) if (p.reaction[x].trig[k].kind == LT_SHUTDOWN && (m < 0 || had[m])) trig[x] = true;
    }
  }
  void mode_changes() {
    bool was[LS_MAXM], reset_m[LS_MAXM]; bool any = false;
    for (int m = 0; m < p.nmode; m++) { was[m] = active(m); reset_m[m] = false; }
    for (int r = 0; r < p.nreactor; r++) {
      if (!modal[r]) continue;
      int pm = p.parent_mode[r];
      if (pm >= 0 && mnext[p.mode[pm].reactor] == pm && mchg[p.mode[pm].reactor] == 1) { for (int m = 0; m < p.nmode; m++) if (p.mode[m].reactor == r && p.mode[m].initial) { mnext[r] = m; mchg[r] = 1; } }
      if (mnext[r] >= 0) { any = true; if (mchg[r] == 1) reset_m[mnext[r]] = true; }
    }
    if (!any) return;
    for (int r = 0; r < p.nreactor; r++) {
      if (!modal[r] || mnext[r] < 0) continue;
      int m = mnext[r];
      mcur[r] = m;
      nreset[m] = mchg[r] == 1;
    }
    for (int r = 0; r < p.nreactor; r++) if (modal[r] && active(mcur[r]) && !had[mcur[r]]) needs[mcur[r]] = true;
    // reset: state variables, pending events and timers of the mode
    for (int m = 0; m < p.nmode; m++) if (reset_m[m]) {
      for (int r = 0; r < p.nreactor; r++) if (p.state_reset[r] && p.parent_mode[r] == m) state[r] = 0;
      q.erase(std::remove_if(q.begin(), q.end(), [&](const Ev& e) { return e.mode == m; }), q.end());
      for (int t = 0; t < p.ntimer; t++) if (ev_mode(0, t) == m) { put(cur, 0, t, false, 0); q.back().susp = true; q.back().remaining = p.timer[t].offset; q.back().mrem = 0; }
    }
    std::vector<Ev> keep;
    for (auto& e : q) {
      bool act = active(e.mode);
      if (e.susp && act) {
        Tag g = e.remaining ? Tag{cur.t + e.remaining, e.mrem} : Tag{cur.t, cur.m + std::max(1u, e.mrem)};
        if (stop < g) continue;
        e.g = g; e.susp = false;
      } else if (!e.susp && !act) { e.remaining = e.g.t - cur.t; e.mrem = e.remaining ? e.g.m : e.g.m - cur.m; e.susp = true; }
      keep.push_back(e);
    }
    q = keep;
    for (int r = 0; r < p.nreactor; r++) { mnext[r] = -1; mchg[r] = 0; }
    bool need = false;
    for (int r = 0; r < p.nreactor; r++) if (modal[r] && active(mcur[r])) need |= needs[mcur[r]] || nreset[mcur[r]];
    if (need) { dummy = true; dummy_at = {cur.t, cur.m + 1}; }
  }
  void run() {
    o.stopped = o.starved = false;
    for (int r = 0; r < p.nreactor; r++) { modal[r] = false; mcur[r] = mnext[r] = -1; mchg[r] = 0; for (int m = 0; m < p.nmode; m++) if (p.mode[m].reactor == r) { modal[r] = true; if (p.mode[m].initial) mcur[r] = m; } }
    if (p.timeout >= 0) stop = {p.timeout, 0};
    if (in.has_stop && in.stop < stop) stop = in.stop;
    for (int r = 0; r < p.nreactor; r++) if (modal[r] && active(mcur[r])) needs[mcur[r]] = true;
    // events at the start
    for (int t = 0; t < p.ntimer; t++) {
      bool act = active(ev_mode(0, t));
      put({p.timer[t].offset, 0}, 0, t, false, 0);
      if (!act) { q.back().susp = true; q.back().remaining = p.timer[t].offset; }
    }
    for (auto& e : in.ext) put(e.g, 1, e.action, p.action[e.action].value, e.seq);
    bool first = true;
    for (int n = 0;; n++) {
      if (n > in.max_tags) { o.err = "reference: too many tags"; return; }
      // next tag
      Tag g = FOREVER_T; bool any = false;
      for (auto& e : q) if (!e.susp && e.g < g) { g = e.g; any = true; }
      if (dummy && dummy_at < g) { g = dummy_at; any = true; }
      if (first) g = {0, 0};
      else {
        if (!any && !p.keepalive) { Tag s2{cur.t, cur.m + 1}; if (s2 < stop) { stop = s2; o.starved = true; } }
        if (stop < g) g = stop;
        if (g == FOREVER_T) return;
        if (!(cur < g)) { o.stopped = stop <= cur; return; }
      }
      if (dummy && dummy_at <= g) dummy = false;
      cur = g; o.tags.push_back(g);
      for (int i = 0; i < p.nport; i++) pp[i] = false;
      for (int i = 0; i < p.naction; i++) ap[i] = false;
      memset(trig, 0, sizeof trig); memset(done, 0, sizeof done);
      if (first) for (int x = 0; x < p.nreaction; x++) if (encl(p.reaction[x].reactor, p.reaction[x].mode) < 0) for (int k = 0; k < p.reaction[x].ntrig; k++) if (p.reaction[x].trig[k].kind == LT_STARTUP) trig[x] = true;
      first = false;
      mode_triggers();
      if (stop <= cur) shutdown();
      std::vector<Ev> now, rest;
      for (auto& e : q) ((!e.susp && e.g == cur) ? now : rest).push_back(e);
      q = rest;
      std::sort(now.begin(), now.end(), [](const Ev& a, const Ev& b) { return a.order < b.order; });
      for (auto& e : now) {
        if (e.kind == 0) { trigger_of(LT_TIMER, e.idx); if (p.timer[e.idx].period > 0) { Tag g2{cur.t + p.timer[e.idx].period, 0}; if (g2 <= stop) put(g2, 0, e.idx, false, 0); } }
        else { ap[e.idx] = true; ah[e.idx] = e.has; av[e.idx] = e.v; trigger_of(LT_ACTION, e.idx); }
      }
      for (;;) {
        int best = -1;
        for (int x = 0; x < p.nreaction; x++) if (trig[x] && (best < 0 || gr.level[x] < gr.level[best])) best = x;
        if (best < 0) break;
        exec(best); trig[best] = false;
      }
      o.stop = stop;
      mode_changes();
      if (stop <= cur) { o.stopped = true; return; }
    }
  }
};
}
void ref_run(const RefIn& in, RefOut& out) { Ref r(in, out); r.run(); out.stop = r.stop; }
