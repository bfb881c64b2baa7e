// Dependency analysis of a program: what the LF compiler computes.
#include "lfspec.h"
#include <string.h>
static const int64_t NODL = INT64_MAX;
void ls_analyse(const ls_prog* p, ls_graph* g) {
  memset(g, 0, sizeof *g);
  for (int i = 0; i < LS_MAXP; i++) g->source[i] = -1;
  // resolve the output port feeding each input (connections may pass through ports of containers)
  for (int i = 0; i < p->nport; i++) {
    if (!p->port[i].input) { g->source[i] = i; continue; }
    int q = i;
    for (int hop = 0; hop < LS_MAXC && p->port[q].input; hop++) {
      int prev = -1;
      for (int c = 0; c < p->nconn; c++) if (p->conn[c].dst == q) prev = p->conn[c].src;
      if (prev < 0) { q = -1; break; }
      q = prev;
    }
    g->source[i] = q;
  }
  int n = p->nreaction;
  bool dep[LS_MAXX][LS_MAXX]; memset(dep, 0, sizeof dep);
  for (int a = 0; a < n; a++)
    for (int b = 0; b < n; b++) {
      if (a == b) continue;
      const ls_reaction &x = p->reaction[a], &y = p->reaction[b];
      if (x.reactor == y.reactor && a < b) dep[a][b] = true;
      for (int e = 0; e < x.neff; e++)
        for (int k = 0; k < y.ntrig + y.nsrc; k++) {
          int port = -1;
          if (k < y.ntrig) { if (y.trig[k].kind == LT_PORT) port = y.trig[k].idx; }
          else if (y.src[k - y.ntrig] < 64) port = y.src[k - y.ntrig];
          if (port >= 0 && g->source[port] == x.eff[e]) dep[a][b] = true;
        }
    }
  memcpy(g->before, dep, sizeof dep);
  for (int k = 0; k < n; k++) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (g->before[a][k] && g->before[k][b]) g->before[a][b] = true;
  for (int k = 0; k < p->norder; k++) dep[p->order[k].a][p->order[k].b] = true;
  bool ch = true;
  while (ch) { ch = false; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (dep[a][b] && g->level[b] <= g->level[a]) { g->level[b] = g->level[a] + 1; ch = true; if (g->level[b] > 60) __builtin_trap(); } }
  for (int a = 0; a < n; a++) g->inferred[a] = p->reaction[a].deadline >= 0 ? p->reaction[a].deadline : NODL;
  ch = true;
  while (ch) { ch = false; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (dep[a][b] && g->inferred[b] < g->inferred[a]) { g->inferred[a] = g->inferred[b]; ch = true; } }
  for (int b = 0; b < n; b++) {
    int best = -1;
    for (int a = 0; a < n; a++) if (dep[a][b] && (best < 0 || g->level[a] > g->level[best])) best = a;
    bool ok = best >= 0;
    for (int a = 0; a < n && ok; a++) if (a != best && dep[a][b] && !g->before[a][best]) ok = false;
    g->enabling[b] = ok ? best : -1;
    if (g->level[b] + 1 > g->nlevels) g->nlevels = g->level[b] + 1;
    g->per_level[g->level[b]]++;
  }
}
