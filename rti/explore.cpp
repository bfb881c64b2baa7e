// Explicit-state exploration of the coordinator's real code together with nodes that obey their grants in every possible way.
// Judged: no message arrives too late, grants never go back, every grant that the reports justify is sent, nobody waits forever.
#include "island.h"
#include "glue.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <stdint.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <algorithm>
typedef short T; // time * 16 + microstep
enum : T { NEV = -1, FOR = 0x7ff0 };
#define N 4
#define ME 12
#define U 1000LL
static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static T del(T t, int d) { return t == FOR || t == NEV || d < 0 ? t : d == 0 ? t + 1 : (t / 16 + d) * 16; }
static std::string ts(T t) { char b[40]; if (t == FOR) return "forever"; if (t == NEV) return "never"; snprintf(b, sizeof b, "(%d,%d)", t / 16, t % 16); return b; }

// ---- topology
struct Topo { int n, ne, u[ME], v[ME], d[ME]; } G;
static bool zdc[N], zedge[ME], hasup[N], hasdown[N], early[N]; static T dist[N][N];
static long env(const char* n, long d) { const char* s = getenv(n); return s ? atol(s) : d; }
static void analyse() {
  bool z[N][N] = {};
  for (int i = 0; i < G.n; i++) { hasup[i] = hasdown[i] = false; for (int j = 0; j < G.n; j++) dist[i][j] = FOR; }
  for (int e = 0; e < G.ne; e++) { if (G.d[e] < 0) z[G.u[e]][G.v[e]] = true; hasup[G.v[e]] = hasdown[G.u[e]] = true; }
  for (int k = 0; k < G.n; k++) for (int i = 0; i < G.n; i++) for (int j = 0; j < G.n; j++) if (z[i][k] && z[k][j]) z[i][j] = true;
  for (int i = 0; i < G.n; i++) zdc[i] = z[i][i];
  for (int e = 0; e < G.ne; e++) zedge[e] = G.d[e] < 0 && zdc[G.u[e]];
  // least delay over all paths of at least one connection: dist[i][j] is where tag 0 of i arrives at j
  for (int i = 0; i < G.n; i++) for (bool ch = true; ch;) {
    ch = false;
    for (int e = 0; e < G.ne; e++) {
      T from = dist[i][G.u[e]]; if (G.u[e] == i) from = 0;
      T t = del(from, G.d[e]); if (t < dist[i][G.v[e]]) { dist[i][G.v[e]] = t; ch = true; }
    }
  }
}
static T along(T t, T path) { if (t == FOR || path == FOR) return FOR; if (t < 0) t = 0; return path >= 16 ? (t / 16) * 16 + path : t + path; }

// ---- nodes
enum { SHUT = 0x80 }; // marks a message that exists only because of the agreed stop
enum { OWN = 0x8000 }; // an event of the node itself rather than a message or a mere placeholder
enum { WAIT, EXEC, DONE, FAILED };
enum { M_NET, M_LTC, M_MSG, M_ABS, M_RESIGN, M_FAIL, M_TAG, M_PTAG, M_STOPREQ, M_STOPREP, M_STOPGR };
static const char* mn[] = {"NET", "LTC", "message", "absent", "RESIGN", "FAILED", "TAG", "PTAG", "STOP_REQUEST", "STOP_REPLY", "STOP_GRANTED"};
struct Msg { unsigned char type, edge; T t; };
#define Q 14
struct Chan { unsigned char n; Msg m[Q]; };
struct Ev { T t; unsigned short in; };
struct Fed {
  unsigned char phase, prov, ne, gotin, eof, stopreq, barrier, shutdown; unsigned short decided, present, asked; // asked: a network input executed at this tag
  T cur, granted, net, ltc, stop, horizon, known[ME]; Ev ev[8];
};
struct State { Fed f[N]; Chan up[N], down[N]; T rnet[N], rgrant[N], rptag[N]; unsigned char npend[N]; T pend[N][6]; unsigned char gone[N]; signed char msgs, locals, leaves, stops; unsigned char stopped, told, lowered; T stoptag, asked; };
static State S; static T STOP; static int MSGS, LOCALS, LEAVES, STOPS, LEAVEKIND, STOPSENDS, GONE; static bool SLIP; static const char* bad; static char badtext[1200];
struct Bad {}; struct Other {}; // Other: something that another property judges; not followed further
// What a failure is about: S late or contradicting messages, L withheld grants, P the agreement to stop, X anything else.
static const char* JUDGE;
static void fail(char kind, const char* f, ...) { va_list a; va_start(a, f); vsnprintf(badtext, sizeof badtext, f, a); va_end(a); bad = badtext; if (kind != 'X' && !strchr(JUDGE, kind)) throw Other(); throw Bad(); }
static bool verb;
static void say(const char* f, ...) { if (!verb) return; va_list a; va_start(a, f); printf("    "); vprintf(f, a); printf("\n"); va_end(a); }
struct Over {};
static void push(Chan& c, int type, int edge, T t) { if (c.n == Q) throw Over(); c.m[c.n++] = {(unsigned char)type, (unsigned char)edge, t}; }
static Msg pop(Chan& c) { Msg m = c.m[0]; memmove(c.m, c.m + 1, --c.n * sizeof(Msg)); memset(&c.m[c.n], 0, sizeof(Msg)); return m; }
static void schedule(int i, T t, unsigned in) {
  Fed& f = S.f[i]; int k = 0;
  while (k < f.ne && f.ev[k].t < t) k++;
  if (k < f.ne && f.ev[k].t == t) { f.ev[k].in |= in; return; }
  if (f.ne == 8) throw Over();
  memmove(f.ev + k + 1, f.ev + k, (f.ne - k) * sizeof(Ev)); f.ev[k] = {t, (unsigned short)in}; f.ne++;
}
static T next(int i) { Fed& f = S.f[i]; T t = f.ne ? f.ev[0].t : FOR; return t > f.stop ? f.stop : t; }
static void send(int i, int type, int edge, T t) { say("node %d sends %s %s", i, mn[type], ts(t).c_str()); push(S.up[i], type, edge, t); }
// What a node reports whenever it looks for its next tag.
static void report(int i, bool entering) {
  Fed& f = S.f[i]; if (!hasup[i] && !hasdown[i]) return;
  T t = next(i);
  if (hasup[i] && f.granted >= t) return;
  if (entering || f.net != t) { f.net = t; send(i, M_NET, 0, t); }
}
static bool assumed(int i, int e) { // a sender that has left sends nothing; that its receivers do not know that is a known finding, shown with GONE=1
  if (GONE || !S.gone[G.u[e]]) return false;
  for (int k = 0; k < S.down[i].n; k++) if ((S.down[i].m[k].type == M_MSG || S.down[i].m[k].type == M_ABS) && (S.down[i].m[k].edge & ~SHUT) == e) return false;
  return true;
}
static bool open_input(int i, int e) { Fed& f = S.f[i]; return G.v[e] == i && zedge[e] && f.granted == f.cur && f.prov && f.known[e] < f.cur; }
static bool unknown(int i, int e) { return open_input(i, e) && !assumed(i, e); }
static bool stalled(int i) { for (int e = 0; e < G.ne; e++) if (unknown(i, e)) return true; return false; }
static void receive(int i) {
  Fed& f = S.f[i]; Msg m = pop(S.down[i]); bool shut = m.edge & SHUT; m.edge &= ~SHUT;
  if (f.phase >= DONE) return;
  say("node %d receives %s %s", i, mn[m.type], ts(m.t).c_str());
  switch (m.type) {
  case M_TAG:
    if (m.t < f.granted) fail('S', "node %d is granted %s after %s", i, ts(m.t).c_str(), ts(f.granted).c_str());
    for (int e = 0; e < G.ne; e++) if (G.v[e] == i && f.known[e] < m.t) f.known[e] = m.t;
    f.granted = m.t; f.prov = 0;
    break;
  case M_PTAG:
    if (m.t < f.granted || (m.t == f.granted && !f.prov)) fail('S', "node %d is provisionally granted %s after it was granted %s", i, ts(m.t).c_str(), ts(f.granted).c_str());
    f.granted = m.t; f.prov = 1;
    if (f.cur > m.t) { if (f.gotin && f.ltc < m.t) { f.ltc = m.t; send(i, M_LTC, 0, m.t); } }
    else if (f.cur < m.t && m.t != FOR) schedule(i, m.t, 0);
    break;
  case M_ABS: if (f.known[m.edge] < m.t) f.known[m.edge] = m.t; break;
  case M_MSG:
    if (f.phase == EXEC && m.t == f.cur && open_input(i, m.edge)) { f.present |= 1 << m.edge; f.known[m.edge] = m.t; f.gotin = 1; break; }
    if (m.t <= f.cur) fail('S', "a message from node %d with tag %s reaches node %d when that has already been allowed to %s tag %s%s", G.u[m.edge], ts(m.t).c_str(), i, f.phase == EXEC ? "enter" : "complete", ts(f.cur).c_str(),
                           f.phase == EXEC && f.prov && f.granted == f.cur ? " (provisionally, but the connection is not one whose messages may be outstanding)" : shut ? "; it was sent by a shutdown reaction at the agreed stop tag" : "");
    if (f.known[m.edge] < m.t) f.known[m.edge] = m.t;
    schedule(i, m.t, 1u << m.edge);
    break;
  case M_STOPREQ:
    if (f.stopreq) break;
    f.stopreq = 1;
    { T t = m.t; if (t <= f.cur) t = f.cur + 1; f.barrier = 1; f.horizon = t; send(i, M_STOPREP, 0, t); }
    break;
  case M_STOPGR:
    if (m.t <= f.cur) fail('P', "node %d is told to stop at %s but is already at %s", i, ts(m.t).c_str(), ts(f.cur).c_str());
    if (f.stopreq == 0) fail('P', "node %d is told to stop without having been asked", i);
    if (f.stopreq == 3) fail('P', "node %d is told twice to stop", i);
    if (m.t < f.stop) f.stop = m.t; f.stopreq = 3; f.barrier = 0;
    break;
  }
  if (f.phase == WAIT) report(i, false);
}
static void enter(int i) { // starts executing its next tag
  Fed& f = S.f[i]; T t = next(i); unsigned in = 0;
  if (f.ne && f.ev[0].t == t) { in = f.ev[0].in; memmove(f.ev, f.ev + 1, --f.ne * sizeof(Ev)); memset(&f.ev[f.ne], 0, sizeof(Ev)); }
  if (t == f.stop && (t == STOP || STOPSENDS)) { in |= OWN; f.shutdown = 1; }
  f.cur = t; f.phase = EXEC; f.present = in; f.gotin = (in & ~OWN) != 0; f.decided = 0; f.asked = 0;
  say("node %d executes tag %s", i, ts(t).c_str());
}
static bool can_enter(int i) {
  Fed& f = S.f[i]; if (f.phase != WAIT) return false;
  T t = next(i); if (t == FOR) return false;
  if (f.barrier && t >= f.horizon) return false;
  return !hasup[i] || f.granted >= t;
}
static int open_output(int i) { // the next connection whose value is still to be decided, if its reaction may run
  Fed& f = S.f[i]; if (f.phase != EXEC) return -1;
  for (int e = 0; e < G.ne; e++) if (G.u[e] == i && !(f.decided >> e & 1)) return early[i] || !stalled(i) ? e : -1;
  return -1;
}
static bool can_complete(int i) { Fed& f = S.f[i]; if (f.phase != EXEC || stalled(i)) return false; for (int e = 0; e < G.ne; e++) if (G.u[e] == i && !(f.decided >> e & 1)) return false; return true; }
static void decide(int i, int e, bool snd) {
  Fed& f = S.f[i]; f.decided |= 1 << e; T t = del(f.cur, G.d[e]);
  if (snd) { S.msgs--; send(i, M_MSG, e | (f.shutdown && f.cur < STOP ? SHUT : 0), t); }
  else if (zedge[e]) send(i, M_ABS, e, t);
}
static void complete(int i) {
  Fed& f = S.f[i];
  if (f.gotin && f.ltc < f.cur) { f.ltc = f.cur; if (hasup[i] || hasdown[i]) send(i, M_LTC, 0, f.cur); }
  say("node %d completes tag %s", i, ts(f.cur).c_str());
  f.present = f.decided = f.asked = f.gotin = 0;
  if (f.cur >= f.stop) { f.phase = DONE; if (!hasup[i] || f.granted < FOR) send(i, M_NET, 0, FOR); send(i, M_RESIGN, 0, 0); T last = f.cur; memset(&f, 0, sizeof f); f.phase = DONE; f.cur = last; f.eof = 1; S.down[i].n = 0; memset(S.down[i].m, 0, sizeof S.down[i].m); }
  else { f.phase = WAIT; report(i, true); }
}
// ---- coordinator
static void put_tag(unsigned char* b, T t) {
  long long x; unsigned m = t % 16;
  if (t == FOR) { x = 0x7fffffffffffffffLL; m = 0xffffffff; } else x = G_T0 + (t / 16) * U;
  for (int i = 0; i < 8; i++) b[i] = x >> (8 * i) & 255; for (int i = 0; i < 4; i++) b[8 + i] = m >> (8 * i) & 255;
}
static T get_tag(const unsigned char* b) {
  unsigned long long x = 0; unsigned m = 0; for (int i = 7; i >= 0; i--) x = x << 8 | b[i]; for (int i = 3; i >= 0; i--) m = m << 8 | b[8 + i];
  if (x == 0x7fffffffffffffffULL) return FOR;
  long long r = (long long)x - G_T0;
  if (r < 0 && m == 0xffffffff && r == -1) return NEV;
  if (r % U == U - 1 && m == 0xffffffff) return (T)((r / U) * 16 + 15);
  if (r < 0 || r % U || m > 13) fail('X', "the coordinator sends the tag (%lld,%u) that no node ever reported", r, m);
  return (T)((r / U) * 16 + m);
}
static T rnext(int i) { return S.rnet[i] == NEV ? 0 : S.rnet[i]; }
static T eimt(int i) { T r = FOR; for (int j = 0; j < G.n; j++) if (dist[j][i] != FOR) r = std::min(r, along(rnext(j), dist[j][i])); return r; }
static T eimt_strict(int i) { // through connections whose messages are never outstanding at a provisional tag
  T r = FOR;
  for (int e = 0; e < G.ne; e++) if (G.v[e] == i && !zedge[e]) r = std::min(r, del(std::min(rnext(G.u[e]), eimt(G.u[e])), G.d[e]));
  return r;
}
static void prompt() {
  bool left = false; for (int i = 0; i < G.n; i++) left |= S.gone[i] || S.f[i].phase == FAILED; // cycles through nodes that left may or may not still count
  for (int i = 0; i < G.n; i++) {
    T n = S.rnet[i];
    if (!hasup[i] || S.gone[i] || S.f[i].phase == FAILED || n == NEV || (S.lowered >> i & 1)) continue;
    T t = eimt(i);
    if (t > n && S.rgrant[i] < n && S.rptag[i] <= n) { char b[300]; g_show(i, b); fail('L', "node %d asked for %s and no message can reach it before %s, but the coordinator keeps it waiting [%s]", i, ts(n).c_str(), ts(t).c_str(), b); }
    if (t == n && n != FOR && zdc[i] && !left && eimt_strict(i) > n && S.rgrant[i] < n && S.rptag[i] < n) { char b[300]; g_show(i, b); fail('L', "node %d asked for %s, only messages around a zero-delay cycle can still reach it at that tag, but the coordinator does not even provisionally grant it [%s]", i, ts(n).c_str(), b); }
  }
}
static std::string inbuf;
static void coordinator(int i) {
  Msg m = pop(S.up[i]); unsigned char b[64]; size_t n = 1; int shut = m.edge & SHUT; m.edge &= ~SHUT;
  say("the coordinator handles %s %s of node %d", mn[m.type], ts(m.t).c_str(), i);
  switch (m.type) {
  case M_NET: b[0] = 6; put_tag(b + 1, m.t); n = 13; break;
  case M_LTC: b[0] = 9; put_tag(b + 1, m.t); n = 13; break;
  case M_MSG: b[0] = 5; b[1] = m.edge; b[2] = 0; b[3] = G.v[m.edge]; b[4] = 0; b[5] = 1; b[6] = b[7] = b[8] = 0; put_tag(b + 9, m.t); b[21] = 77; n = 22; break;
  case M_ABS: b[0] = 23; b[1] = m.edge; b[2] = 0; b[3] = G.v[m.edge]; b[4] = 0; put_tag(b + 5, m.t); n = 17; break;
  case M_RESIGN: b[0] = 4; break;
  case M_FAIL: if (m.t) n = 0; else b[0] = 25; break;
  case M_STOPREQ: b[0] = 10; put_tag(b + 1, m.t); n = 13; break;
  case M_STOPREP: b[0] = 11; put_tag(b + 1, m.t); n = 13; break;
  }
  isl::in = b; isl::in_len = n; isl::in_pos = 0; isl::in_fd = 100 + i; isl::in_eof = m.type == M_RESIGN || m.type == M_FAIL;
  for (int k = 0; k < G.n; k++) isl::broken[k] = S.f[k].phase == FAILED && S.f[k].eof == 2;
  int r = isl::run(i);
  bool ended = m.type == M_RESIGN || m.type == M_FAIL || (r == 0 && isl::broken[i]); // having failed to write to it, the coordinator need not listen either
  if (r > isl::IDLE) fail('X', "%s (while handling %s %s of node %d)", isl::why(), mn[m.type], ts(m.t).c_str(), i);
  if (ended != (r == 0)) fail('X', "the coordinator %s node %d after its %s", ended ? "keeps listening to" : "stops listening to", i, mn[m.type]);
  if (r == isl::IDLE && isl::in_pos != n) fail('X', "the coordinator left a message half read");
  // what it knows by now
  auto pend = [&](int k) { T x = FOR; for (int j = 0; j < S.npend[k]; j++) x = std::min(x, S.pend[k][j]); return x; };
  if (ended) { S.gone[i] = 1; S.rnet[i] = FOR; S.npend[i] = 0; memset(S.pend[i], 0, sizeof S.pend[i]); }
  else if (m.type == M_NET) { S.rnet[i] = std::min(m.t, pend(i)); S.lowered &= ~(1 << i); }
  else if (m.type == M_MSG) {
    int k = G.v[m.edge];
    if (!S.gone[k]) {
      bool dup = false; for (int j = 0; j < S.npend[k]; j++) dup |= S.pend[k][j] == m.t;
      if (!dup) { if (S.npend[k] == 6) throw Over(); S.pend[k][S.npend[k]++] = m.t; std::sort(S.pend[k], S.pend[k] + S.npend[k]); }
      if (m.t < S.rnet[k]) S.rnet[k] = m.t;
    }
  }
  else if (m.type == M_LTC) { int k = 0; for (int j = 0; j < S.npend[i]; j++) if (S.pend[i][j] > m.t) S.pend[i][k++] = S.pend[i][j]; for (int j = k; j < S.npend[i]; j++) S.pend[i][j] = 0; S.npend[i] = k; }
  if (!ended && (m.type == M_STOPREQ || m.type == M_STOPREP) && m.t > S.asked) S.asked = m.t;
  bool fwd = false;
  for (auto& o : isl::out) {
    int k = o.fd - 100; const unsigned char* p = (const unsigned char*)o.bytes.data(), *e = p + o.bytes.size();
    while (p < e) {
      size_t len; int type;
      switch (*p) { case 7: type = M_TAG; len = 13; break; case 8: type = M_PTAG; len = 13; break; case 5: type = M_MSG; len = 22; break; case 23: type = M_ABS; len = 17; break; case 10: type = M_STOPREQ; len = 13; break; case 12: type = M_STOPGR; len = 13; break;
      default: fail('X', "the coordinator sends an unexpected byte %d to node %d", *p, k); }
      if (e - p < (long)len) fail('X', "the coordinator sends an incomplete %s to node %d", mn[type], k);
      T t = get_tag(type == M_MSG ? p + 9 : type == M_ABS ? p + 5 : p + 1);
      if (type == M_MSG || type == M_ABS) {
        if (fwd || m.type != type || memcmp(p, b, len) || k != G.v[m.edge]) fail('S', "the coordinator sends node %d a message that is not the one it was given", k);
        fwd = true;
      }
      if (type == M_TAG) S.rgrant[k] = std::max(S.rgrant[k], t);
      if (type == M_PTAG) S.rptag[k] = std::max(S.rptag[k], t);
      say("  it sends %s %s to node %d", mn[type], ts(t).c_str(), k);
      if (type == M_STOPGR) {
        if (S.stopped && t != S.stoptag) fail('P', "the coordinator tells the nodes to stop at different tags %s and %s", ts(S.stoptag).c_str(), ts(t).c_str());
        if (S.told >> k & 1) fail('P', "the coordinator tells node %d twice to stop", k);
        if (t < S.asked) fail('P', "the coordinator tells the nodes to stop at %s although %s was asked for", ts(t).c_str(), ts(S.asked).c_str());
        S.stopped = 1; S.stoptag = t; S.told |= 1 << k; for (int x = 0; x < G.n; x++) if (isl::broken[x] && !S.gone[x] && t < S.rnet[x]) S.rnet[x] = t; // dead, but not known to be
        if (t < S.rnet[k]) { S.rnet[k] = t; S.lowered |= 1 << k; }
      }
      if (!S.gone[k] && S.f[k].phase < DONE) push(S.down[k], type, type == M_MSG || type == M_ABS ? m.edge | shut : 0, t);
      p += len;
    }
  }
  if ((m.type == M_MSG || m.type == M_ABS) && !ended && !fwd && !S.gone[G.v[m.edge]] && !isl::broken[G.v[m.edge]]) fail('S', "the coordinator does not forward a message to node %d", G.v[m.edge]);
  if (S.stopped) for (int k = 0; k < G.n; k++) if (!(S.told >> k & 1) && !S.gone[k] && !isl::broken[k]) fail('P', "the coordinator tells only some of the nodes to stop: not node %d", k);
  prompt();
}
// ---- exploration
struct Tr { unsigned char kind, i, x; };
enum { K_COORD, K_RECV, K_ENTER, K_OUT, K_SEND, K_COMPLETE, K_LOCAL, K_LEAVE, K_STOP };
static void moves(std::vector<Tr>& v) {
  v.clear();
  // A node with nothing to choose about its next output is advanced right away: that commutes with everything else.
  if (!S.leaves) for (int i = 0; i < G.n; i++) {
    Fed& f = S.f[i]; int e = open_output(i); if (e < 0) continue;
    bool settled = true; for (int k = 0; k < G.ne; k++) settled &= !open_input(i, k);
    bool can_have = f.present || !settled; // it has, or may yet get, something to react to
    if ((S.msgs && can_have) || (!f.decided && can_have && (S.locals || (S.stops && !f.stopreq && f.cur < f.stop)))) continue;
    v.push_back({K_OUT, (unsigned char)i, (unsigned char)e}); return;
  }
  for (int i = 0; i < G.n; i++) if (S.up[i].n && !S.gone[i]) v.push_back({K_COORD, (unsigned char)i, 0});
  for (int i = 0; i < G.n; i++) if (S.down[i].n) v.push_back({K_RECV, (unsigned char)i, 0});
  for (int i = 0; i < G.n; i++) {
    Fed& f = S.f[i];
    if (can_enter(i)) v.push_back({K_ENTER, (unsigned char)i, 0});
    int e = open_output(i);
    if (e >= 0) { v.push_back({K_OUT, (unsigned char)i, (unsigned char)e}); if (S.msgs > 0 && f.present && del(f.cur, G.d[e]) <= f.stop) v.push_back({K_SEND, (unsigned char)i, (unsigned char)e}); }
    if (f.phase == EXEC && S.locals > 0 && f.present && f.decided == 0) { for (int d = 0; d < 2; d++) v.push_back({K_LOCAL, (unsigned char)i, (unsigned char)d}); }
    if (f.phase == EXEC && S.stops > 0 && f.present && !f.stopreq && f.cur < f.stop && f.decided == 0) v.push_back({K_STOP, (unsigned char)i, 0});
    if (can_complete(i)) v.push_back({K_COMPLETE, (unsigned char)i, 0});
    if (f.phase < DONE && S.leaves > 0) for (int w = 0; w < 2; w++) v.push_back({K_LEAVE, (unsigned char)i, (unsigned char)(LEAVEKIND + 2 * w)});
  }
}
static void apply(Tr t) {
  int i = t.i; Fed& f = S.f[i];
  switch (t.kind) {
  case K_COORD: coordinator(i); break;
  case K_RECV: receive(i); break;
  case K_ENTER: enter(i); break;
  case K_OUT: decide(i, t.x, false); break;
  case K_SEND: decide(i, t.x, true); break;
  case K_COMPLETE: complete(i); break;
  case K_LOCAL: S.locals--; schedule(i, del(f.cur, t.x), OWN); say("node %d schedules an event at %s", i, ts(del(f.cur, t.x)).c_str()); break;
  case K_STOP: S.stops--; f.stopreq = 2; f.barrier = 1; f.horizon = f.cur + 1; send(i, M_STOPREQ, 0, f.cur + 1); break;
  case K_LEAVE: S.leaves--; say("node %d %s%s", i, t.x & 1 ? "loses its connection" : "fails", t.x & 2 ? ", writing to it fails" : ""); push(S.up[i], M_FAIL, 0, t.x & 1); memset(&f, 0, sizeof f); f.phase = FAILED; f.eof = 1 + (t.x >> 1); S.down[i].n = 0; memset(S.down[i].m, 0, sizeof S.down[i].m); break;
  }
}
static uint64_t hash() {
  uint64_t h = g_hash() * 31 + isl::statics(); const uint64_t* p = (const uint64_t*)&S; size_t n = sizeof S / 8; uint64_t tail = 0; memcpy(&tail, (char*)&S + n * 8, sizeof S % 8);
  for (size_t i = 0; i < n; i++) { h = (h ^ p[i]) * 0x9E3779B97F4A7C15ULL; h ^= h >> 32; } h = (h ^ tail) * 0xBF58476D1CE4E5B9ULL; h ^= h >> 29; return h ? h : 1;
}
static std::vector<uint64_t> tab; static size_t tabn;
static bool seen(uint64_t h) {
  if (tab.empty()) tab.assign(1 << 16, 0);
  if (tabn * 2 > tab.size()) { std::vector<uint64_t> o; o.swap(tab); tab.assign(o.size() * 2, 0); for (uint64_t x : o) if (x) { size_t k = x & (tab.size() - 1); while (tab[k]) k = (k + 1) & (tab.size() - 1); tab[k] = x; } }
  size_t k = h & (tab.size() - 1); while (tab[k]) { if (tab[k] == h) return true; k = (k + 1) & (tab.size() - 1); } tab[k] = h; tabn++; return false;
}
static void start(const int* ev) {
  isl::reset();
  long long d[ME]; for (int e = 0; e < G.ne; e++) d[e] = G.d[e] < 0 ? -1 : G.d[e] * U;
  g_setup(G.n, G.ne, G.u, G.v, d);
  memset(&S, 0, sizeof S);
  S.stoptag = S.asked = NEV; S.msgs = MSGS; S.locals = LOCALS; S.leaves = LEAVES; S.stops = STOPS;
  for (int i = 0; i < N; i++) {
    Fed& f = S.f[i]; f.cur = f.granted = f.net = f.ltc = NEV; f.stop = STOP; S.rnet[i] = S.rgrant[i] = S.rptag[i] = NEV; for (int e = 0; e < ME; e++) f.known[e] = NEV;
    if (i >= G.n) { f.phase = DONE; continue; }
    schedule(i, 0, OWN); if (ev[i] == 1) schedule(i, 1, OWN); if (ev[i] == 2) schedule(i, 16, OWN);
    report(i, true);
  }
}
struct Shared { long long states, trans, topos, finals, over, other; bool capped, failed; char text[5000]; char sample[400]; };
static Shared* SH;
static void finished() {
  for (int i = 0; i < G.n; i++) if (S.f[i].phase < DONE) {
    char b[300]; g_show(i, b); std::string all;
    for (int k = 0; k < G.n; k++) all += " node " + std::to_string(k) + (S.f[k].phase == WAIT ? " waits with next tag " + ts(next(k)) : S.f[k].phase == EXEC ? " is blocked at tag " + ts(S.f[k].cur) : S.f[k].phase == DONE ? " is done" : " is gone") + " (granted " + ts(S.f[k].granted) + (S.f[k].prov ? " provisionally" : "") + ");";
    bool left = false; for (int k = 0; k < G.n; k++) for (int e = 0; e < G.ne; e++) if (S.f[k].phase == EXEC && S.gone[G.u[e]] && unknown(k, e)) left = true;
    fail('L', "nobody can proceed any more%s:%s the coordinator sees node %d as: %s", left ? " (a node waits for the status of an input whose sender has left)" : "", all.c_str(), i, b);
  }
  SH->finals++;
  if (S.stopped) for (int i = 0; i < G.n; i++) if (S.f[i].phase == DONE && (S.told >> i & 1) && S.f[i].cur != std::min(S.stoptag, STOP)) fail('P', "the nodes are told to stop at %s but node %d stops at %s", ts(S.stoptag).c_str(), i, ts(S.f[i].cur).c_str());
}
struct Frame { State s; std::string isl; std::vector<Tr> mv; size_t k; };
static double until; static size_t cap;
static bool dfs(const int* ev, std::vector<Tr>& trace) {
  std::vector<Frame> st; trace.clear();
  start(ev); if (seen(hash())) return true;
  auto enter = [&]() { st.emplace_back(); Frame& f = st.back(); f.s = S; f.isl.resize(isl::size()); isl::save((unsigned char*)&f.isl[0]); f.k = 0; moves(f.mv); SH->states++; if (f.mv.empty()) finished(); };
  try { enter(); } catch (Bad&) { return false; } catch (Other&) { SH->other++; return true; }
  while (!st.empty()) {
    Frame& f = st.back();
    if (f.k == f.mv.size()) { st.pop_back(); continue; }
    Tr t = f.mv[f.k++];
    S = f.s; isl::restore((const unsigned char*)f.isl.data(), f.isl.size());
    SH->trans++;
    try {
      apply(t);
      if (!seen(hash())) { enter(); if ((SH->states & 1023) == 0 && (wall() > until || tabn > cap)) { SH->capped = true; return true; } }
    } catch (Bad&) {
      // st may hold one frame more when a final state fails
      for (auto& g : st) if (g.k) trace.push_back(g.mv[g.k - 1]);
      return false;
    } catch (Over&) { SH->over++; } catch (Other&) { SH->other++; if (st.back().mv.empty()) st.pop_back(); }
  }
  return true;
}
static std::string tops(const int* ev) {
  std::string r; for (int e = 0; e < G.ne; e++) { r += std::to_string(G.u[e]) + "->" + std::to_string(G.v[e]) + (G.d[e] < 0 ? "" : " after " + std::to_string(G.d[e])) + ", "; }
  r += "outputs independent of inputs:"; for (int i = 0; i < G.n; i++) if (early[i]) r += " " + std::to_string(i);
  r += ", own events:"; for (int i = 0; i < G.n; i++) r += ev[i] == 0 ? " -" : ev[i] == 1 ? " (0,1)" : " (1,0)";
  return r;
}
// Families of topologies
static int DELS; // delay kinds besides "no connection": none, 0, 1, 2
static bool decode(long idx, int n) { // every pair of distinct nodes: no connection or one with a delay
  G.n = n; G.ne = 0;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) { int c = idx % (DELS + 1); idx /= DELS + 1; if (c) { if (G.ne == ME) return false; G.u[G.ne] = i; G.v[G.ne] = j; G.d[G.ne++] = c - 2; } }
  return true;
}
static long encode(const Topo& g, const int* perm) {
  int c[N][N] = {}; for (int e = 0; e < g.ne; e++) c[perm[g.u[e]]][perm[g.v[e]]] = g.d[e] + 2;
  long r = 0, w = 1; for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) if (i != j) { r += c[i][j] * w; w *= DELS + 1; } return r;
}
static bool canonical(long idx, bool anyorder) {
  if (anyorder) return true;
  int p[N]; for (int i = 0; i < G.n; i++) p[i] = i;
  while (std::next_permutation(p, p + G.n)) if (encode(G, p) < idx) return false;
  return true;
}
static bool connected() { unsigned m = 1; for (bool c = true; c;) { c = false; for (int e = 0; e < G.ne; e++) { bool a = m >> G.u[e] & 1, b = m >> G.v[e] & 1; if (a != b) { m |= 1 << G.u[e] | 1 << G.v[e]; c = true; } } } return m == (1u << G.n) - 1; }
static bool legal() { // every zero-delay cycle is broken by a node whose outputs do not wait for its inputs
  bool z[N][N] = {}; for (int e = 0; e < G.ne; e++) if (G.d[e] < 0 && !early[G.u[e]]) z[G.u[e]][G.v[e]] = true;
  for (int k = 0; k < G.n; k++) for (int i = 0; i < G.n; i++) for (int j = 0; j < G.n; j++) if (z[i][k] && z[k][j]) z[i][j] = true;
  for (int i = 0; i < G.n; i++) if (z[i][i]) return false;
  return true;
}
static void report_bad(long idx, unsigned em, const int* ev, const std::vector<Tr>& tr) {
  std::string c = std::to_string(idx) + "," + std::to_string(em); for (int i = 0; i < G.n; i++) c += "," + std::to_string(ev[i]);
  for (auto& t : tr) c += "," + std::to_string(t.kind * 10000 + t.i * 100 + t.x);
  char* p = SH->text; int k = snprintf(p, 5000, "VIOLATION: %s; connections %s [choices %s]\n", badtext, tops(ev).c_str(), c.c_str()); (void)k; SH->failed = true;
}
static int one(long idx, int n, int shard_ev, std::vector<Tr>& tr) {
  analyse();
  for (unsigned em = 0; em < 1u << n; em++) {
    bool ok = true; for (int i = 0; i < n; i++) { early[i] = em >> i & 1; if (early[i] && !zdc[i]) ok = false; }
    if (!ok || !legal()) continue;
    tab.clear(); tabn = 0;
    int lim = 1; for (int i = 0; i < n; i++) lim *= 3;
    for (int x = 0; x < lim; x++) {
      int ev[N], y = x, cnt = 0; for (int i = 0; i < n; i++) { ev[i] = y % 3; y /= 3; cnt += ev[i] != 0; }
      if (cnt > shard_ev) continue;
      if (!dfs(ev, tr)) { report_bad(idx, em, ev, tr); return 1; }
      if (SH->capped) return 0;
    }
    snprintf(SH->sample, sizeof SH->sample, "%s: %zu states", tops(std::vector<int>(4, 0).data()).c_str(), tabn);
  }
  SH->topos++;
  return 0;
}
int main(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  JUDGE = getenv("JUDGE") ? getenv("JUDGE") : "SLP";
  int n = env("NODES", 3), minE = env("MINEDGES", 1), maxE = env("MAXEDGES", 12), evs = env("EVENTS", 1), shards = env("EN_SHARDS", 4), wantz = env("CYCLES", -1), dmod = env("EVERY", 1);
  DELS = env("DELAYS", 3); STOP = env("STOP", 32); MSGS = env("MESSAGES", 2); LOCALS = env("LOCALS", 0); LEAVES = env("LEAVES", 0); LEAVEKIND = env("LEAVEKIND", 0); STOPS = env("STOPS", 0); STOPSENDS = env("STOPSENDS", 0); GONE = env("GONE", 0); cap = env("CAP", 60000000 / shards);
  double tl = getenv("TIME_LIMIT") ? atof(getenv("TIME_LIMIT")) : 1e9; until = wall() + tl; double t0 = wall();
  SH = (Shared*)mmap(nullptr, sizeof(Shared) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  isl::init();
  for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--replay") && i + 1 < argc) {
    std::vector<long> c; for (char* p = strtok(argv[++i], ","); p; p = strtok(nullptr, ",")) c.push_back(atol(p));
    decode(c[0], n); analyse(); int ev[N] = {}; for (int k = 0; k < n; k++) { early[k] = c[1] >> k & 1; ev[k] = c[2 + k]; }
    printf("  connections %s\n", tops(ev).c_str()); verb = true;
    try {
      start(ev);
      for (size_t k = 2 + n; k < c.size(); k++) { Tr t = {(unsigned char)(c[k] / 10000), (unsigned char)(c[k] / 100 % 100), (unsigned char)(c[k] % 100)}; apply(t); }
      std::vector<Tr> mv; moves(mv); if (mv.empty()) finished();
    } catch (Bad&) { printf("VIOLATION: %s\n", badtext); return 1; } catch (Other&) { printf("left to another property: %s\n", badtext); return 0; }
    printf("no violation\n"); return 0;
  }
  long total = 1; for (int i = 0; i < n * (n - 1); i++) total *= DELS + 1;
  std::vector<long> todo;
  for (long idx = 0; idx < total; idx++) {
    if (!decode(idx, n) || G.ne < minE || G.ne > maxE || !connected() || !canonical(idx, env("ORDERS", 0))) continue;
    analyse(); int z = 0; for (int i = 0; i < n; i++) z += zdc[i];
    if (wantz >= 0 && z < wantz) continue;
    todo.push_back(idx);
  }
  if (getenv("ONLY")) todo.assign(1, env("ONLY", 0));
  if (dmod > 1) { std::vector<long> t; for (size_t k = 0; k < todo.size(); k += dmod) t.push_back(todo[k]); todo.swap(t); }
  // topologies are handed out through a shared counter so that expensive ones spread over the workers
  long* nexti = (long*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Shared* base = SH; std::vector<pid_t> pid;
  for (int w = 0; w < shards; w++) {
    fflush(stdout); pid_t p = fork();
    if (p == 0) {
      SH = base + w; std::vector<Tr> tr;
      for (long k; (k = __sync_fetch_and_add(nexti, 1)) < (long)todo.size();) { decode(todo[k], n); if (one(todo[k], n, evs, tr) || SH->capped) break; }
      _exit(0);
    }
    pid.push_back(p);
  }
  int rc = 0; bool badd = false; Shared tot; memset(&tot, 0, sizeof tot);
  for (int left = shards; left; left--) {
    int st; pid_t p = wait(&st); int w = -1; for (int i = 0; i < shards; i++) if (pid[i] == p) w = i; if (w < 0) continue;
    Shared* s = base + w;
    if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL && !badd) { badd = true; printf("VIOLATION: the coordinator crashes with signal %s\n", strsignal(WTERMSIG(st))); }
    else if (s->failed && !badd) { badd = true; fputs(s->text, stdout); for (int i = 0; i < shards; i++) if (pid[i] != p) kill(pid[i], SIGKILL); }
    else if (WIFSIGNALED(st) && !badd) rc = 2;
    tot.states += s->states; tot.trans += s->trans; tot.topos += s->topos; tot.finals += s->finals; tot.over += s->over; tot.other += s->other; tot.capped |= s->capped; if (s->sample[0]) strcpy(tot.sample, s->sample);
  }
  printf("STATS {\"executions\": %lld, \"states\": %lld, \"transitions\": %lld, \"topologies\": %lld, \"topologies_total\": %zu, \"beyond_bounds\": %lld, \"left_to_other_properties\": %lld, \"capped\": %s, \"wall_s\": %.2f, \"sample\": \"%s\"}\n", tot.finals, tot.states, tot.trans, tot.topos, todo.size(), tot.over, tot.other, tot.capped ? "true" : "false", wall() - t0, tot.sample);
  return badd ? 1 : rc;
}
