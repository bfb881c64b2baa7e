// Runs a small program, described by ls_prog, on the real runtime in real time and records what it did.
#pragma once
#include "lfspec.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <vector>
#include <map>
#include <mutex>
#include <functional>
#include <initializer_list>
#define MS 1000000LL
struct B {
  ls_prog& p;
  explicit B(ls_prog& q) : p(q) { memset(&p, 0, sizeof p); for (int i = 0; i < LS_MAXR; i++) p.parent_mode[i] = -1; p.timeout = -1; p.workers = 2; p.name = "prog"; }
  int reactor(int parent = -1) { p.parent_mode[p.nreactor] = (int8_t)parent; return p.nreactor++; }
  int in(int r, int tok = 0) { p.port[p.nport] = {(int8_t)r, true, (int8_t)tok}; return p.nport++; }
  int out(int r, int tok = 0) { p.port[p.nport] = {(int8_t)r, false, (int8_t)tok}; return p.nport++; }
  void conn(int s, int d) { p.conn[p.nconn++] = {(int8_t)s, (int8_t)d}; }
  int timer(int r, int64_t off, int64_t per, int mode = -1) { p.timer[p.ntimer] = {(int8_t)r, (int8_t)mode, off, per}; return p.ntimer++; }
  int action(int r, int64_t delay, bool value = true, int64_t spacing = 0, int policy = LP_DEFER, bool phys = false, int mode = -1) {
    ls_action& a = p.action[p.naction]; a.reactor = (int8_t)r; a.mode = (int8_t)mode; a.physical = phys; a.value = value; a.policy = (int8_t)policy; a.min_delay = delay; a.min_spacing = spacing; a.netin = -1; return p.naction++;
  }
  int physical(int r, int64_t delay = 0) { return action(r, delay, true, 0, LP_DEFER, true); }
  int mode(int r, bool initial) { p.mode[p.nmode] = {(int8_t)r, initial}; return p.nmode++; }
  int rx(int r, std::initializer_list<ls_trig> trig, std::initializer_list<int> eff = {}, std::initializer_list<ls_stmt> body = {}, std::initializer_list<int> src = {}, int mode = -1) {
    ls_reaction& x = p.reaction[p.nreaction]; x.reactor = (int8_t)r; x.mode = (int8_t)mode; x.deadline = -1;
    for (auto t : trig) x.trig[x.ntrig++] = t;
    for (auto e : eff) x.eff[x.neff++] = (int8_t)e;
    for (auto s : src) x.src[x.nsrc++] = (int8_t)s;
    for (auto s : body) x.body[x.nbody++] = s;
    return p.nreaction++;
  }
  void deadline(int x, int64_t d, std::initializer_list<ls_stmt> h) { ls_reaction& q = p.reaction[x]; q.deadline = d; q.has_handler = true; for (auto s : h) q.handler[q.nhandler++] = s; }
  void thread(std::initializer_list<std::initializer_list<int64_t>> calls) { ls_thread& t = p.thread[p.nthread++]; for (auto& c : calls) { auto v = c.begin(); t.what[t.n] = (int8_t)v[0]; t.action[t.n] = (int8_t)v[1]; t.at[t.n] = v[2]; t.extra[t.n] = v[3]; t.n++; } }
};
static inline ls_trig STARTUP() { return {LT_STARTUP, 0}; }
static inline ls_trig SHUTDOWN() { return {LT_SHUTDOWN, 0}; }
static inline ls_trig RESET() { return {LT_RESET, 0}; }
static inline ls_trig TIMER(int i) { return {LT_TIMER, (int8_t)i}; }
static inline ls_trig ACTION(int i) { return {LT_ACTION, (int8_t)i}; }
static inline ls_trig PORT(int i) { return {LT_PORT, (int8_t)i}; }
static inline ls_stmt S(int op, int target = 0, int64_t arg = 0, int guard = LG_ALWAYS, int garg = 0, int garg2 = 0) { return {(int8_t)op, (int8_t)guard, (int8_t)garg, (int8_t)target, (int8_t)garg2, arg}; }
static inline ls_stmt SET(int port, int guard = LG_ALWAYS, int garg = 0) { return S(LO_SET, port, 0, guard, garg); }
static inline ls_stmt SCHED(int a, int64_t d = 0, int guard = LG_ALWAYS, int garg = 0) { return S(LO_SCHED, a, d, guard, garg); }
struct Ev { int rx, kind; int64_t t; uint32_t m; int64_t phys; std::vector<int> present, value; bool ended; };
extern std::vector<Ev> ev;                       // reactions in the order in which they began
extern std::vector<std::vector<int64_t>> handles; // {reaction, action, handle}
extern int64_t g_start;
extern std::map<void*, int> payloads;            // 1 live, 0 released
extern std::function<void(int rx, int n)> on_begin, on_end; // called without locks held
extern ls_prog prog;
extern int bad;                                  // payload misuse
int run();                                       // runs the program to its end, within 20 s
int count(int rx);
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); show(); exit(1); } } while (0)
void show();
