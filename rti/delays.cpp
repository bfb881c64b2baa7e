// Delay analysis of every topology within the bounds, compared with shortest paths computed independently.
#include "island.h"
#include "glue.h"
#include "../enum/en.h"
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#define MN 6
struct D { long long t; unsigned m; bool inf; };
static bool less(D a, D b) { if (a.inf || b.inf) return !a.inf && b.inf; return a.t != b.t ? a.t < b.t : a.m < b.m; }
// arrival of an event with (relative) tag a over a connection: nothing, a microstep, or an interval that resets the microstep
static D over(D a, long long d) { if (a.inf) return a; if (d < 0) return a; if (d == 0) { a.m++; return a; } a.t += d; a.m = 0; return a; }
static int n; static long long w[MN][MN]; static bool conn[MN];
static void one() {
  n = (int)en::argi("NODES", 3); int kinds = (int)en::argi("DELAYS", 4), flags = (int)en::argi("FLAGS", 1), maxe = (int)en::argi("MAXEDGES", 99); bool rev = en::argi("REVERSED", 0);
  static const long long dk[] = {-2, -1, 0, 1, 3};
  int u[32], v[32], ne = 0; long long d[32];
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    w[i][j] = -2; if (i == j) continue;
    int c = ne < maxe ? en::ch(kinds + 1, "connection") : 0;
    w[i][j] = dk[c]; if (c) { u[ne] = i; v[ne] = j; d[ne++] = dk[c]; }
  }
  for (int i = 0; i < n; i++) conn[i] = !flags || en::ch(2, "node is connected") == 0;
  if (rev) { std::reverse(u, u + ne); std::reverse(v, v + ne); std::reverse(d, d + ne); }
  isl::reset(); g_setup(n, ne, u, v, d);
  for (int i = 0; i < n; i++) g_connected(i, conn[i]);
  uint64_t h = ne;
  for (int round = 0; round < 2; round++) { // again after the results were discarded
    for (int k = 0; k < n; k++) {
      if (!conn[k]) continue;
      // reference: least arrival at k over paths whose inner nodes are connected; from each source forwards
      D best[MN];
      for (int s = 0; s < n; s++) {
        D at[MN]; for (int i = 0; i < n; i++) at[i] = {0, 0, true};
        D r = {0, 0, true};
        for (int x = 0; x < n; x++) if (x != s && w[s][x] != -2) { D a = over({0, 0, false}, w[s][x]); if (less(a, at[x])) at[x] = a; }
        if (s != k) for (int it = 0; it < n; it++) for (int i = 0; i < n; i++) if (conn[i] && i != k) for (int j = 0; j < n; j++) if (w[i][j] != -2) { D a = over(at[i], w[i][j]); if (less(a, at[j])) at[j] = a; }
        if (s == k) for (int it = 0; it < n; it++) for (int i = 0; i < n; i++) if (conn[i] && i != k) for (int j = 0; j < n; j++) if (w[i][j] != -2) { D a = over(at[i], w[i][j]); if (less(a, at[j])) at[j] = a; }
        r = at[k]; best[s] = r;
      }
      // zero-delay cycle: k reaches itself through connections without delay
      bool z[MN][MN]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) z[i][j] = w[i][j] == -1 && conn[i] && conn[j];
      for (int x = 0; x < n; x++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) z[i][j] |= z[i][x] && z[x][j];
      int ids[MN + 2], cyc, zdc; long long t[MN + 2]; unsigned m[MN + 2];
      en::step();
      int c = g_delays(k, ids, t, m, &cyc, &zdc);
      int want = 0; for (int s = 0; s < n; s++) want += !best[s].inf;
      EN_REQ(c == want, "node %d: %d nodes are reported as upstream, but there are %d", k, c, want);
      bool seen[MN] = {};
      for (int x = 0; x < c; x++) {
        EN_REQ(ids[x] >= 0 && ids[x] < n && !seen[ids[x]], "node %d: upstream nodes are not reported once each", k); seen[ids[x]] = true; D b = best[ids[x]];
        EN_REQ(!b.inf, "node %d: node %d is reported as upstream but no path leads from it", k, ids[x]);
        EN_REQ(t[x] == b.t && m[x] == b.m, "node %d: the least delay from node %d is reported as (%lld,%u) but is (%lld,%u)", k, ids[x], t[x], m[x], b.t, b.m);
        h = en::mix(h, t[x] * 64 + m[x] * 8 + ids[x]);
      }
      EN_REQ(!!cyc == !best[k].inf, "node %d is %s to be on a cycle", k, cyc ? "wrongly reported" : "not reported");
      EN_REQ(!!zdc == z[k][k], "node %d is %s to be on a cycle without delay", k, zdc ? "wrongly reported" : "not reported");
    }
    for (int i = 0; i < n; i++) g_invalidate(i);
  }
  en::state(h);
}
static void init() { isl::init(); }
int main(int argc, char** argv) { return en::run(argc, argv, one, init); }
