// Compares the trace file of a program with what the harness saw it do.
#include "../trace/lftread.h"
static void judge_trace(int i, const RefOut& ro) {
  Inst& n = O->in[i]; const ls_prog& p = n.p;
  size_t size; const unsigned char* d = mc_file("main_0.lft", &size);
  if (!d) { mc_fail("there is no trace file"); return; }
  Lft f; lft_read(d, size, f);
  if (!f.err.empty()) { mc_fail("the trace file cannot be read: %s", f.err.c_str()); return; }
  if (n.start && f.start != n.start) { mc_fail("the trace file has start time %lld", (long long)f.start); return; }
  std::map<uint64_t, std::string> robj, uobj, tobj;
  for (auto& o : f.obj) { if (o.type == 0) robj[o.ptr] = o.d; else if (o.type == 1) tobj[o.trig] = o.d; else uobj[o.ptr] = o.d; }
  if ((int)robj.size() != p.nreactor || (int)tobj.size() != p.naction + p.ntimer || (int)uobj.size() != p.nreaction) { mc_fail("the trace file describes %zu reactors, %zu triggers and %zu user events", robj.size(), tobj.size(), uobj.size()); return; }
  std::vector<int> num(p.nreaction); { int c[LS_MAXR] = {0}; for (int x = 0; x < p.nreaction; x++) num[x] = c[(int)p.reaction[x].reactor]++; }
  // executions, per thread
  std::map<int, std::vector<std::pair<int, std::string>>> exec; std::multiset<std::string> missed; std::map<std::string, int> user, sched, sched_n;
  auto line = [&](int ev, int r, int nr, Tag g) { static const char* en[] = {"start", "end", "deadline miss"}; return std::string(en[ev]) + " of reaction " + std::to_string(nr) + " of r" + std::to_string(r) + " at " + tagstr(g); };
  for (int r = 0; r < p.nreactor; r++) for (auto& q : n.recs[r]) {
    auto& v = exec[q.tid];
    if (q.kind == HK_DEADLINE) { v.push_back({q.nth * 2, line(2, r, num[q.rx], q.g)}); v.push_back({q.nth * 2 + 1, line(0, r, num[q.rx], q.g)}); missed.insert(line(1, r, num[q.rx], q.g)); } // its end comes after what it triggers
    else { v.push_back({q.nth * 2, line(0, r, num[q.rx], q.g)}); v.push_back({q.nth * 2 + 1, line(1, r, num[q.rx], q.g)}); }
    char b[80]; snprintf(b, sizeof b, "%d %s", q.rx, tagstr(q.g).c_str()); user[b]++;
  }
  std::vector<std::vector<std::string>> want, got;
  for (auto& e : exec) { std::sort(e.second.begin(), e.second.end()); std::vector<std::string> v; for (auto& q : e.second) v.push_back(q.second); want.push_back(v); }
  std::map<int, std::vector<std::string>> ev; std::map<int, int64_t> last; std::map<int, bool> waiting;
  for (auto& r : f.rec) {
    Tag g{r.lt - f.start, r.m};
    if (r.type == 0 || r.type == 1 || r.type == 2) {
      if (!robj.count(r.ptr)) { mc_fail("a reaction's event has an unknown reactor"); return; }
      std::string l = line(r.type, atoi(robj[r.ptr].c_str() + 1), r.dst, g);
      if (r.type == 1 && missed.count(l)) missed.erase(missed.find(l)); else
      ev[r.src].push_back(line(r.type, atoi(robj[r.ptr].c_str() + 1), r.dst, g));
    }
    if (r.type == 0 || r.type == 1 || r.type == 2 || r.type == 6 || r.type == 7) {
      if (last.count(r.src) && r.pt < last[r.src]) { mc_fail("events of worker %d are not in order", r.src); return; }
      last[r.src] = r.pt;
    }
    if (r.type == 6 || r.type == 7) { if (waiting[r.src] != (r.type == 7)) { mc_fail("worker %d %s waiting twice", r.src, r.type == 6 ? "starts" : "ends"); return; } waiting[r.src] = r.type == 6; }
    if (r.type == 3) {
      if (!tobj.count(r.trig)) { mc_fail("a schedule event has an unknown trigger"); return; }
      std::string t = tobj[r.trig]; if (t[0] == 'a') { char b[80]; snprintf(b, sizeof b, "%s", t.c_str()); sched_n[b]++; snprintf(b, sizeof b, "%s from %s by %lld", t.c_str(), tagstr(g).c_str(), (long long)r.extra); sched[b]++; }
    }
    if (r.type == 4 || r.type == 5) {
      if (!uobj.count(r.ptr)) { mc_fail("a user event has an unknown description"); return; }
      int x = atoi(uobj[r.ptr].c_str() + strcspn(uobj[r.ptr].c_str(), "0123456789")); char b[80]; snprintf(b, sizeof b, "%d %s", x, tagstr(g).c_str());
      if (--user[b] < 0) { mc_fail("the trace has a user event of reaction %s that did not happen", b); return; }
    }
  }
  for (auto& u : user) if (u.second) { mc_fail("the user event of reaction %s is missing from the trace", u.first.c_str()); return; }
  if (!missed.empty()) { mc_fail("the trace lacks the %s", missed.begin()->c_str()); return; }
  for (auto& e : ev) got.push_back(e.second);
  std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
  if (want != got) {
    std::multiset<std::string> a, b; for (auto& v : want) a.insert(v.begin(), v.end()); for (auto& v : got) b.insert(v.begin(), v.end());
    for (auto& s : a) if (b.count(s) != a.count(s)) { mc_fail("the trace has the %s %zu times instead of %zu", s.c_str(), b.count(s), a.count(s)); return; }
    for (auto& s : b) if (b.count(s) != a.count(s)) { mc_fail("the trace has the %s %zu times instead of %zu", s.c_str(), b.count(s), a.count(s)); return; }
    mc_fail("the trace attributes events to other workers, or has them in another order"); return;
  }
  // calls of schedule
  std::map<std::string, int> calls, exact;
  for (int r = 0; r < p.nreactor; r++) for (size_t k = 0; k < n.sched[r].size() && k < ro.sched[r].size(); k++) {
    auto& q = n.sched[r][k]; if (q.handle <= 0) continue;
    std::string a = "a" + std::to_string(q.action); calls[a]++; Tag at = ro.sched[r][k].at;
    char b[120]; snprintf(b, sizeof b, "%s from %s by %lld", a.c_str(), tagstr(q.g).c_str(), (long long)(at.t - q.g.t)); exact[b]++;
  }
  for (auto& e : exact) if (sched[e.first] < e.second) { mc_fail("the trace has %d of %d calls scheduling %s", sched[e.first], e.second, e.first.c_str()); return; }
  for (auto& c : n.calls) if (c.handle > 0) calls["a" + std::to_string(c.action)]++;
  for (int a = 0; a < p.naction; a++) { std::string s = "a" + std::to_string(a); if (p.nmode ? sched_n[s] < calls[s] : sched_n[s] != calls[s]) { mc_fail("%d events of %s are scheduled, but the trace has %d", calls[s], s.c_str(), sched_n[s]); return; } }
}
