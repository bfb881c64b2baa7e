// Harness core shared by all scenarios that run programs on the real runtime.
#pragma once
#include "lfref.h"
#include "mc.h"
#include <string>
#include <vector>
#include <functional>
#include <string.h>
#include <initializer_list>
#define MAXI 4
struct AsyncCall { int action; int64_t extra; int tid; int64_t t0, t1; Tag g0; bool ended; int handle; bool in_reaction; bool wd; int exact; Tag at; };
struct Barrier { int tid; Tag b; Tag cur; };
struct StopCall { int64_t t0, t1; Tag g0; bool async; bool ended; };
struct Wire { uint64_t content; size_t length; Tag g; int64_t at; };
struct WdSt { bool set, running; int64_t lo, hi; int fired; }; // started, handler running, bounds of the expiration time
struct Inst {
  ls_prog p; ls_graph g; int proc; int64_t start; bool used;
  std::vector<Rec> recs[LS_MAXR]; std::vector<SchedRec> sched[LS_MAXR]; int open[LS_MAXR]; int64_t begin_at[LS_MAXX], end_at[LS_MAXX]; Tag ran_at[LS_MAXX]; bool ran[LS_MAXX]; bool running[LS_MAXX]; int nrunning, nexec;
  Tag last; bool any; int64_t last_new; std::vector<AsyncCall> calls; std::vector<StopCall> stops; WdSt wd[LS_MAXW]; bool advanced; std::vector<Barrier> bars; bool barriers;
  std::map<std::tuple<int, int, Tag>, Tag> intended; std::map<std::string, std::vector<int64_t>> notes;
  std::vector<Wire> sent[LS_MAXNET], got[LS_MAXNET];
  struct Phys { int64_t t0, t1, lo, v; }; std::vector<Phys> phys; std::map<int, Phys> phys_open; int64_t phys_max; // reads of the physical time: when (real), the largest one returned before, value
  int64_t min_now, max_now; size_t sizes[3]; uint64_t mark;
};
struct Obs { Inst in[MAXI]; int64_t thread_last[64]; int flags[8]; };
extern Obs* O;
struct Opt {
  bool check_prompt = true; // reactions begin exactly when due (needs a quiet clock)
  bool check_leaks = true;
  bool compare = true;
  bool handles = true;
  int64_t clock_error = 0;  // physical time as the program sees it may be this far from the real one
  bool reject = false;      // the command line is malformed: the program reports that and runs nothing
};
extern Opt opt;
// program builder
struct B {
  ls_prog& p;
  explicit B(ls_prog& q) : p(q) { memset(&p, 0, sizeof p); for (int i = 0; i < LS_MAXR; i++) p.parent_mode[i] = -1; p.timeout = -1; p.workers = 2; p.name = "prog"; }
  int reactor(int parent = -1) { p.parent_mode[p.nreactor] = (int8_t)parent; return p.nreactor++; }
  int in(int r, int tok = 0) { p.port[p.nport] = {(int8_t)r, true, (int8_t)tok}; return p.nport++; }
  int out(int r, int tok = 0) { p.port[p.nport] = {(int8_t)r, false, (int8_t)tok}; return p.nport++; }
  void conn(int s, int d) { p.conn[p.nconn++] = {(int8_t)s, (int8_t)d}; }
  int timer(int r, int64_t off, int64_t per, int mode = -1) { p.timer[p.ntimer] = {(int8_t)r, (int8_t)mode, off, per}; return p.ntimer++; }
  int action(int r, int64_t delay, bool value = true, int64_t spacing = 0, int policy = LP_DEFER, bool phys = false, int mode = -1) {
    ls_action& a = p.action[p.naction]; a.reactor = (int8_t)r; a.mode = (int8_t)mode; a.physical = phys; a.value = value; a.policy = (int8_t)policy; a.min_delay = delay; a.min_spacing = spacing; a.netin = -1; return p.naction++;
  }
  int physical(int r, int64_t delay = 0) { return action(r, delay, true, 0, LP_DEFER, true); }
  int mode(int r, bool initial) { p.mode[p.nmode] = {(int8_t)r, initial}; return p.nmode++; }
  int rx(int r, std::initializer_list<ls_trig> trig, std::initializer_list<int> eff = {}, std::initializer_list<ls_stmt> body = {}, std::initializer_list<int> src = {}, int mode = -1) {
    ls_reaction& x = p.reaction[p.nreaction]; x.reactor = (int8_t)r; x.mode = (int8_t)mode; x.deadline = -1;
    for (auto t : trig) x.trig[x.ntrig++] = t;
    for (auto e : eff) x.eff[x.neff++] = (int8_t)e;
    for (auto s : src) x.src[x.nsrc++] = (int8_t)s;
    for (auto s : body) x.body[x.nbody++] = s;
    return p.nreaction++;
  }
  void deadline(int x, int64_t d, std::initializer_list<ls_stmt> h) { ls_reaction& q = p.reaction[x]; q.deadline = d; q.has_handler = true; for (auto s : h) q.handler[q.nhandler++] = s; }
};
static inline ls_trig STARTUP() { return {LT_STARTUP, 0}; }
static inline ls_trig SHUTDOWN() { return {LT_SHUTDOWN, 0}; }
static inline ls_trig RESET() { return {LT_RESET, 0}; }
static inline ls_trig TIMER(int i) { return {LT_TIMER, (int8_t)i}; }
static inline ls_trig ACTION(int i) { return {LT_ACTION, (int8_t)i}; }
static inline ls_trig PORT(int i) { return {LT_PORT, (int8_t)i}; }
static inline ls_stmt S(int op, int target = 0, int64_t arg = 0, int guard = LG_ALWAYS, int garg = 0, int garg2 = 0) { return {(int8_t)op, (int8_t)guard, (int8_t)garg, (int8_t)target, (int8_t)garg2, arg}; }
static inline ls_stmt SET(int port, int guard = LG_ALWAYS, int garg = 0) { return S(LO_SET, port, 0, guard, garg); }
static inline ls_stmt SCHED(int a, int64_t d = 0, int guard = LG_ALWAYS, int garg = 0) { return S(LO_SCHED, a, d, guard, garg); }
typedef void (*scen_f)(B& b);
struct Scen { const char* name; scen_f build; };
void add_scen(const char* name, scen_f f);
struct RegScen { RegScen(const char* n, scen_f f) { add_scen(n, f); } };
#define SCEN(n) static void scen_##n(B& b); static RegScen reg_##n(#n, scen_##n); static void scen_##n(B& b)
void inst_reset(int i);
std::string recstr(const Rec& r);
bool same_reads(const Rec& a, const Rec& b);
bool is_shutdown(const ls_prog& p, int x);
void inst_judge(int i, int status); // compares with the reference
std::string tagstr(Tag g);
extern "C" int lf_gen_main(void*);
