// Description of a small LF program, shared by the runtime-side builder (lfgen.c) and the reference interpreter.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
#define LS_MAXR 14    // reactors
#define LS_MAXX 24   // reactions
#define LS_MAXP 32   // ports
#define LS_MAXA 10   // actions
#define LS_MAXT 8    // timers
#define LS_MAXM 8    // modes
#define LS_MAXW 2    // watchdogs
#define LS_MAXC 24   // connections
#define LS_MAXS 8    // statements per body
#define LS_MAXTH 3   // asynchronous threads
#define LS_MAXNET 6  // network inputs / outputs of a federate

enum { LT_STARTUP, LT_SHUTDOWN, LT_RESET, LT_TIMER, LT_ACTION, LT_PORT, LT_NETABSENT };
enum { LG_ALWAYS, LG_N_EQ, LG_N_LT, LG_N_GE, LG_N_EVEN, LG_PRESENT, LG_ABSENT, LG_STATE_ODD };
enum {
  LO_NOP,
  LO_SET,       // set port target (arg!=0: set twice)
  LO_SCHED,     // schedule action target with extra delay arg
  LO_SCHEDCOPY, // same through lf_schedule_copy
  LO_SCHEDTOK,  // schedule action target with the token read in slot garg2, extra delay arg
  LO_STOP,      // lf_request_stop
  LO_MODE,      // switch to mode target, arg 1 reset 2 history
  LO_ADVANCE,   // consume arg ns of physical time
  LO_CHECKDL,   // lf_check_deadline
  LO_WDSTART,   // start watchdog target with additional timeout arg
  LO_WDSTOP,
  LO_MUTATE,    // writable copy of the payload in slot garg2, modify it; if target >= 0 send it there
  LO_FORWARD,   // lf_set_token(target, token read in slot garg2)
  LO_THREAD,    // start asynchronous thread target
  LO_JOIN,      // join asynchronous thread target
  LO_NETSEND,   // send slot garg2's value on network output target
  LO_NETABS,    // port absent on network output target when slot garg2 is absent
  LO_NETRECV,   // copy the value of the network action to port target
  LO_FLAG,      // raise harness flag target
  LO_WAITFLAG,  // wait for harness flag target
  LO_PHYS       // read the physical time
};
enum { LP_DEFER, LP_DROP, LP_REPLACE };

typedef struct { int8_t kind, idx; } ls_trig;
typedef struct { int8_t op, guard; int8_t garg, target, garg2; int64_t arg; } ls_stmt;
typedef struct { int8_t reactor, mode; int64_t offset, period; } ls_timer;
typedef struct { int8_t reactor, mode; bool physical, value; int8_t policy; int64_t min_delay, min_spacing; int8_t netin; /* network input index or -1 */ } ls_action;
typedef struct { int8_t reactor; bool input; int8_t token; /* 0 int, 1 plain token, 2 token with destructor and copy constructor */ } ls_port;
typedef struct { int8_t src, dst; } ls_conn;
typedef struct {
  int8_t reactor, mode; int8_t ntrig, nsrc, neff; ls_trig trig[5]; int8_t src[4]; /* port, or 64+action */ int8_t eff[4];
  int64_t deadline; bool has_handler, has_stp; int8_t nbody, nhandler; ls_stmt body[LS_MAXS], handler[LS_MAXS];
} ls_reaction;
typedef struct { int8_t reactor; bool initial; } ls_mode;
typedef struct { int8_t reactor; int64_t timeout; int8_t action; int8_t nbody; ls_stmt body[3]; } ls_watchdog;
typedef struct { int n; int8_t action[4]; int64_t at[4]; int64_t extra[4]; int8_t what[4]; /* 0 schedule, 1 request stop, 2 raise a barrier at time extra, 3 lift it, 4 deliver an event at time extra */ } ls_thread;
typedef struct { int peer, peer_port; int64_t delay; /* NEVER: none */ bool physical, zdc; int nlen; int len[4]; /* payload bytes of successive messages, or (nlen 0) one int */ int link; } ls_net;
#define LS_MAXORD 24
typedef struct { int8_t a, b; } ls_order;
typedef struct {
  const char* name;
  int nreactor, nreaction, nport, naction, ntimer, nmode, nwd, nconn, nthread;
  int8_t parent_mode[LS_MAXR]; // mode (of another reactor) that contains the reactor, or -1
  bool state_reset[LS_MAXR];   // the reactor's state variable is marked reset
  ls_reaction reaction[LS_MAXX]; ls_port port[LS_MAXP]; ls_action action[LS_MAXA]; ls_timer timer[LS_MAXT]; ls_mode mode[LS_MAXM];
  ls_watchdog wd[LS_MAXW]; ls_conn conn[LS_MAXC]; ls_thread thread[LS_MAXTH];
  int64_t timeout; // -1: none
  bool fast, keepalive; int workers;
  // federation
  int nnetin, nnetout; ls_net netin[LS_MAXNET], netout[LS_MAXNET];
  int fed_id, nfed; int64_t sta, staa; bool server; // the federate accepts connections of other federates
  int norder; ls_order order[LS_MAXORD]; // level of reaction a is below that of b
  int nup, ndown, nin_p2p, nout_p2p; int up[3], down[3], out_p2p[3]; int64_t up_delay[3]; // neighbours through the coordinator; direct connections
  const char* federation; int rti_port; int64_t min_phys; // least delay from a physical action to a network output, or -1
  const char* argv[20]; int argc;
  const char* dargv[20]; int dargc; // default options compiled into the program
  bool rawargs;                     // argv is the whole command line
} ls_prog;

// computed from the program by one set of rules (lfspec.cpp)
typedef struct { int level[LS_MAXX]; int64_t inferred[LS_MAXX]; int enabling[LS_MAXX]; bool before[LS_MAXX][LS_MAXX]; int nlevels; int per_level[LS_MAXX]; int source[LS_MAXP]; /* output port feeding an input */ } ls_graph;
void ls_analyse(const ls_prog* p, ls_graph* g);
static inline uint64_t ls_mix(uint64_t a, uint64_t b) { uint64_t x = a * 0x9E3779B97F4A7C15ULL + b + 0x1234567; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 32; return x; }
static inline int ls_value(uint64_t state, int rx, int stmt) { return (int)(ls_mix(ls_mix(state, (uint64_t)rx), (uint64_t)stmt) % 100000) + 1; }
static inline bool ls_guard(const ls_stmt* s, int n, uint64_t state, uint32_t present) {
  switch (s->guard) {
  case LG_ALWAYS: return true;
  case LG_N_EQ: return n == s->garg;
  case LG_N_LT: return n < s->garg;
  case LG_N_GE: return n >= s->garg;
  case LG_N_EVEN: return n % 2 == 0;
  case LG_PRESENT: return (present >> s->garg) & 1;
  case LG_ABSENT: return !((present >> s->garg) & 1);
  case LG_STATE_ODD: return state & 1;
  }
  return false;
}

// --- callbacks from the generated program into the harness
enum { HK_BODY, HK_DEADLINE, HK_STP, HK_WATCHDOG };
const ls_prog* hx_prog(int inst);
const ls_graph* hx_graph(int inst);
void hx_start(int inst, int64_t start, int rx); // called before every hx_begin
void hx_begin(int inst, int rx, int kind, int64_t time, uint32_t microstep); // tag relative to the start time
void hx_tag(int inst, int rx, int64_t time, uint32_t microstep);             // tag as seen in the middle of a reaction
void hx_read(int inst, int rx, int slot, bool present, bool has_value, int value);
void hx_end(int inst, int rx, int kind, uint64_t state);
int hx_async_begin(int inst, int action, int64_t extra); // physical action about to be scheduled; returns its number
void hx_async_end(int inst, int action, int seq, int handle);
void hx_stop_called(int inst, int phase, bool async);
void hx_sched(int inst, int rx, int action, int64_t extra, int handle);
void hx_payload(int inst, void* p, int what); // 0 created, 1 destroyed, 2 copied, 3 read
void hx_wd(int inst, int wd, int what, int64_t arg); // 0 start, 1 stop, 2 handler begins, 3 handler ends
void hx_barrier(int inst, int what, int64_t btime, uint32_t bmicro, int64_t ctime, uint32_t cmicro); // barrier at the first tag raised (0) or about to be lifted (1) while the current tag is the second
void hx_exact(int inst, int seq, int64_t time, uint32_t microstep, int64_t ctime, uint32_t cmicro); // the event of this call has exactly this tag if that is later than the current one
void hx_flag(int inst, int flag, int wait);
void hx_wire(int inst, int net, int dir, uint64_t content, size_t length, int64_t time, uint32_t microstep); // sent (0) at or received (1) for this tag
void hx_intended(int inst, int rx, int slot, int64_t time, uint32_t microstep); // intended tag of a present input
void hx_sizes(int inst, size_t token, size_t payload);
void hx_note(int inst, const char* what, int64_t v);
void hx_phys(int inst, int phase, int64_t time); // physical time is about to be read (0), has been read (1)
#ifdef __cplusplus
}
#endif
