// Builds the LF program described by hx_prog(INST) through the interface used by generated code.
// Compiled together with the runtime (instrumented).
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "low_level_platform.h"
#include "api/schedule.h"
#include "reactor.h"
#include "reactor_common.h"
#include "environment.h"
#include "port.h"
#include "lf_token.h"
#include "tag.h"
#include "util.h"
#ifndef LF_SINGLE_THREADED
#include "scheduler.h"
#include "scheduler_instance.h"
#include "watchdog.h"
#include "reactor_threaded.h"
#endif
#ifdef MODAL_REACTORS
#include "modes.h"
#endif
#ifdef FEDERATED
#include "federate.h"
#include "net_common.h"
#include "net_util.h"
#include "clock-sync.h"
#endif
#include "lfspec.h"
#include "reaction_macros.h"
#undef lf_tag
#undef lf_time_logical
#undef lf_time_logical_elapsed
static int inst_number; // which of the simulated programs this copy is
#define INST inst_number
void mc_advance(int64_t ns);
void mc_sleep_until(int64_t t);
int64_t mc_now(void);
void mc_yield(void);

extern instant_t start_time;
extern instant_t duration;
extern bool fast, keepalive_specified;
extern unsigned int _lf_number_of_workers;

typedef struct { token_type_t type; lf_token_t* token; size_t length; bool is_present; lf_port_internal_t _base; int value; 
#ifdef FEDERATED
  tag_t intended_tag; instant_t physical_time_of_arrival;
#endif
} iport_t;
typedef struct { token_type_t type; lf_token_t* token; size_t length; bool is_present; lf_port_internal_t _base; int* value;
#ifdef FEDERATED
  tag_t intended_tag; instant_t physical_time_of_arrival;
#endif
} tport_t;
typedef struct { token_type_t type; lf_token_t* token; size_t length; bool is_present; lf_action_internal_t _base; self_base_t* parent; bool has_value; int source_id; int value; } action_s;
typedef struct { self_base_t base; int id; uint64_t state; } self_t;

static environment_t envs[1];
static const ls_prog* pr;
static const ls_graph* gr;
static self_t* R[LS_MAXR];
static reaction_t X[LS_MAXX];
static int count_x[LS_MAXX];
static iport_t* out[LS_MAXP];       // output ports (int or token)
static trigger_t in_trig[LS_MAXP];  // input port triggers
static action_s A[LS_MAXA];
static trigger_t act_trig[LS_MAXA];
static trigger_t tim_trig[LS_MAXT];
static bool produced_dummy;
#ifndef LF_SINGLE_THREADED
static lf_thread_t threads[LS_MAXTH];
#endif
static uint64_t zero_state;
#ifdef MODAL_REACTORS
static reactor_mode_t M[LS_MAXM];
static char* mode_names[LS_MAXM] = {"m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7"};
#endif
#ifndef LF_SINGLE_THREADED
static watchdog_t W[LS_MAXW];
#endif
static const char* rx_names[LS_MAXX] = {"x0","x1","x2","x3","x4","x5","x6","x7","x8","x9","x10","x11","x12","x13","x14","x15","x16","x17","x18","x19","x20","x21","x22","x23"};

// ------------------------------------------------------------------ payloads
static void* payload_new(int v, int kind) {
  int* p = (int*)malloc(3 * sizeof(int));
  p[0] = v; p[1] = v ^ 0x5a5a5a; p[2] = 0;
  hx_payload(INST, p, 0);
  (void)kind;
  return p;
}
static void payload_dtor(void* p) { hx_payload(INST, p, 1); free(p); }
static void* payload_copy(void* p) {
  int* q = (int*)malloc(3 * sizeof(int));
  q[0] = ((int*)p)[0]; q[1] = ((int*)p)[1]; q[2] = 0;
  hx_payload(INST, q, 2);
  return q;
}
static int payload_get(int* p) {
  hx_payload(INST, p, 3);
  if (p[1] != (p[0] ^ 0x5a5a5a)) hx_note(INST, "payload corrupted", p[0]);
  return p[0];
}

#ifndef LF_SINGLE_THREADED
// ------------------------------------------------------------------ asynchronous threads
static void* async_main(void* arg) {
  const ls_thread* t = (const ls_thread*)arg;
  for (int i = 0; i < t->n; i++) {
    mc_sleep_until(start_time + t->at[i]);
    if (t->what[i] == 1) {
      hx_stop_called(INST, 0, true);
      lf_request_stop();
      hx_stop_called(INST, 1, true);
    } else if (t->what[i] == 2) {
      environment_t* env = &envs[0];
      lf_mutex_lock(&env->mutex);
      tag_t cur = env->current_tag, b = {.time = start_time + t->extra[i], .microstep = 0};
      if (lf_tag_compare(b, env->stop_tag) > 0) b = env->stop_tag;
      if (lf_tag_compare(b, cur) <= 0) { b = cur; b.microstep++; }
      _lf_increment_tag_barrier_locked(env, (tag_t){.time = start_time + t->extra[i], .microstep = 0});
      hx_barrier(INST, 0, b.time - start_time, b.microstep, cur.time - start_time, cur.microstep);
      lf_mutex_unlock(&env->mutex);
    } else if (t->what[i] == 3) {
      environment_t* env = &envs[0];
      lf_mutex_lock(&env->mutex);
      hx_barrier(INST, 1, 0, 0, 0, 0);
      _lf_decrement_tag_barrier_locked(env);
      lf_mutex_unlock(&env->mutex);
    } else if (t->what[i] == 4) {
      environment_t* env = &envs[0];
      int a = t->action[i];
      int seq = hx_async_begin(INST, a, 0);
      lf_mutex_lock(&env->mutex);
      int* v = (int*)malloc(sizeof(int));
      *v = seq;
      tag_t at = {.time = start_time + t->extra[i], .microstep = 0};
      hx_exact(INST, seq, at.time - start_time, at.microstep, env->current_tag.time - start_time, env->current_tag.microstep);
      lf_token_t* tok = _lf_new_token((token_type_t*)&A[a], v, 1);
      tok->ref_count++;
      int h = _lf_schedule_at_tag(env, &act_trig[a], at, tok);
      _lf_done_using(tok);
      lf_notify_of_event(env);
      lf_mutex_unlock(&env->mutex);
      hx_async_end(INST, a, seq, h);
    } else {
      int a = t->action[i];
      int seq = hx_async_begin(INST, a, t->extra[i]);
      int h = pr->action[a].value ? lf_schedule_int(&A[a], t->extra[i], seq) : lf_schedule(&A[a], t->extra[i]);
      hx_async_end(INST, a, seq, h);
    }
  }
  return NULL;
}
#endif

// ------------------------------------------------------------------ reactions
#ifdef FEDERATED
static uint64_t wire_hash(const unsigned char* d, size_t len) { uint64_t h = len; for (size_t i = 0; i < len; i++) h = ls_mix(h, d[i]); return h; }
#endif
static iport_t* port_struct(int p) { return pr->port[p].input ? out[gr->source[p]] : out[p]; }

static void body(self_t* self, int x, int kind, const ls_stmt* st, int n) {
  const ls_reaction* rx = &pr->reaction[x];
  environment_t* env = self->base.environment;
  tag_t g = lf_tag(env);
  uint32_t present = 0;
  lf_token_t* tok[9]; iport_t* slot_port[9];
  memset(tok, 0, sizeof tok); memset(slot_port, 0, sizeof slot_port);
  hx_start(INST, start_time, x);
  hx_begin(INST, x, kind, g.time - start_time, g.microstep);
  uint64_t s = self->state;
  s = ls_mix(s, (uint64_t)(x * 4 + kind));
  s = ls_mix(s, (uint64_t)(g.time - start_time));
  s = ls_mix(s, g.microstep);
  int slots = rx->ntrig + rx->nsrc;
  for (int i = 0; i < slots; i++) {
    int k, idx;
    if (i < rx->ntrig) { k = rx->trig[i].kind; idx = rx->trig[i].idx; }
    else { idx = rx->src[i - rx->ntrig]; k = idx >= 64 ? LT_ACTION : LT_PORT; idx &= 63; }
    bool pres = false, hasv = false; int v = 0;
    if (k == LT_ACTION) {
      action_s* a = &A[idx];
      LF_CRITICAL_SECTION_ENTER(env);
      a->is_present = (bool)act_trig[idx].status;
      a->has_value = act_trig[idx].tmplt.token != NULL && act_trig[idx].tmplt.token->value != NULL;
      _lf_replace_template_token((token_template_t*)a, act_trig[idx].tmplt.token);
      LF_CRITICAL_SECTION_EXIT(env);
      pres = a->is_present;
      if (pres && a->has_value) {
        hasv = true;
        hx_payload(INST, a->token->value, 3);
#ifdef FEDERATED
        if (pr->action[idx].netin >= 0) hx_wire(INST, pr->action[idx].netin, 1, wire_hash((unsigned char*)a->token->value, a->token->length), a->token->length, g.time - start_time, g.microstep);
        if (pr->action[idx].netin >= 0 && pr->netin[(int)pr->action[idx].netin].nlen) a->value = (int)a->token->length + 1; else
#endif
        a->value = *(int*)a->token->value;
        v = a->value;
        tok[i] = a->token;
      }
#ifdef FEDERATED
      if (pr->action[idx].netin >= 0 && pres) hx_intended(INST, x, i, act_trig[idx].intended_tag.time == NEVER ? NEVER : act_trig[idx].intended_tag.time - start_time, act_trig[idx].intended_tag.microstep);
#endif
    } else if (k == LT_PORT) {
      iport_t* p = port_struct(idx);
      slot_port[i] = p;
      if (p) {
        pres = p->is_present;
        if (pres) {
          hasv = true;
#ifdef FEDERATED_DECENTRALIZED
          hx_intended(INST, x, i, p->intended_tag.time == NEVER ? NEVER : p->intended_tag.time - start_time, p->intended_tag.microstep);
#endif
          if (pr->port[idx].token) { tok[i] = p->token; v = payload_get((int*)p->token->value); } else v = p->value;
        }
      }
    } else continue;
    if (pres) present |= 1u << i;
    hx_read(INST, x, i, pres, hasv, v);
    s = ls_mix(s, pres ? (uint64_t)(hasv ? v : -1) + 1 : 0);
  }
  self->state = s;
  int cnt = count_x[x]++;
#ifdef LF_TRACE
  if (x & 1) tracepoint_user_value(self, (char*)rx_names[x], cnt); else tracepoint_user_event(self, (char*)rx_names[x]);
#endif
  for (int i = 0; i < n; i++) {
    const ls_stmt* q = &st[i];
    if (!ls_guard(q, cnt, s, present)) continue;
    int v = ls_value(s, x, i);
    switch (q->op) {
    case LO_SET:
      for (int rep = 0; rep <= (q->arg != 0); rep++) {
        if (rep) v = v % 99999 + 1;
        if (pr->port[(int)q->target].token) { tport_t* o = (tport_t*)out[(int)q->target]; int* pl = payload_new(v, pr->port[(int)q->target].token); lf_set_array(o, pl, 3); }
        else { iport_t* o = out[(int)q->target]; lf_set(o, v); }
      }
      break;
    case LO_SCHED: case LO_SCHEDCOPY: {
      int a = q->target; int h; int seq = 0;
      bool phys = pr->action[a].physical;
      if (phys) { seq = hx_async_begin(INST, a, q->arg); v = seq; }
      if (!pr->action[a].value) h = lf_schedule(&A[a], q->arg);
      else if (q->op == LO_SCHED) h = lf_schedule_int(&A[a], q->arg, v);
      else h = lf_schedule_copy(&A[a], q->arg, &v, 1);
      if (phys) hx_async_end(INST, a, seq, h);
      else hx_sched(INST, x, a, q->arg, h);
      break;
    }
    case LO_SCHEDTOK:
      if (tok[(int)q->garg2]) { int h = lf_schedule_token(&A[(int)q->target], q->arg, tok[(int)q->garg2]); hx_sched(INST, x, q->target, q->arg, h); }
      break;
    case LO_STOP: hx_stop_called(INST, 0, false); lf_request_stop(); hx_stop_called(INST, 1, false); break;
#ifdef MODAL_REACTORS
    case LO_MODE: _LF_SET_MODE_WITH_TYPE(&M[(int)q->target], q->arg == 1 ? reset_transition : history_transition); break;
#endif
    case LO_ADVANCE: mc_advance(q->arg); break;
    case LO_PHYS: hx_phys(INST, 0, 0); hx_phys(INST, 1, lf_time_physical()); break;
    case LO_CHECKDL: { bool b = lf_check_deadline(self, q->arg != 0); hx_note(INST, "check_deadline", b); break; }
#ifndef LF_SINGLE_THREADED
    case LO_WDSTART: hx_wd(INST, q->target, 0, q->arg); lf_watchdog_start(&W[(int)q->target], q->arg); break;
    case LO_WDSTOP: hx_wd(INST, q->target, 1, 0); lf_watchdog_stop(&W[(int)q->target]); break;
    case LO_THREAD: lf_thread_create(&threads[(int)q->target], async_main, (void*)&pr->thread[(int)q->target]); break;
    case LO_JOIN: { void* r; lf_thread_join(threads[(int)q->target], &r); break; }
#endif
    case LO_MUTATE: {
      iport_t* p = slot_port[(int)q->garg2];
      if (p && p->is_present) {
        lf_token_t* t = lf_writable_copy((lf_port_base_t*)p);
        int* pl = (int*)t->value;
        payload_get(pl);
        pl[0] = pl[0] + 7; pl[1] = pl[0] ^ 0x5a5a5a;
        if (q->target >= 0) { tport_t* o = (tport_t*)out[(int)q->target]; lf_set_token(o, t); }
      }
      break;
    }
    case LO_FORWARD:
      if (tok[(int)q->garg2]) { tport_t* o = (tport_t*)out[(int)q->target]; lf_token_t* t = tok[(int)q->garg2]; lf_set_token(o, t); }
      break;
    case LO_FLAG: hx_flag(INST, q->target, 0); break;
    case LO_WAITFLAG: hx_flag(INST, q->target, 1); break;
#ifdef FEDERATED
    case LO_NETSEND: {
      const ls_net* no = &pr->netout[(int)q->target];
      iport_t* p = slot_port[(int)q->garg2];
      if (p && p->is_present) {
        int val = p->value;
        size_t len = sizeof val;
        unsigned char* data = (unsigned char*)&val;
        if (no->nlen) {
          len = no->len[cnt % no->nlen];
          data = (unsigned char*)malloc(len ? len : 1);
          for (size_t i = 0; i < len; i++) data[i] = (unsigned char)((i * 7 + cnt * 31 + (i >> 8) * 13 + (size_t)no->link * 5 + val) ^ (i >> 3));
        }
        hx_wire(INST, q->target, 0, wire_hash(data, len), len, g.time - start_time, g.microstep);
#ifdef FEDERATED_CENTRALIZED
        int type = MSG_TYPE_TAGGED_MESSAGE;
#else
        int type = MSG_TYPE_P2P_TAGGED_MESSAGE;
#endif
        if (no->physical) {
          hx_note(INST, "send", lf_send_message(MSG_TYPE_P2P_MESSAGE, no->peer_port, no->peer, "peer", len, data));
        } else {
          hx_note(INST, "send", lf_send_tagged_message(env, no->delay, type, no->peer_port, no->peer, "peer", len, data));
        }
        if (no->nlen) free(data);
      }
      break;
    }
    case LO_NETABS: {
      const ls_net* no = &pr->netout[(int)q->target];
      iport_t* p = slot_port[(int)q->garg2];
      if (p && !p->is_present) lf_send_port_absent_to_federate(env, no->delay, no->peer_port, no->peer);
      break;
    }
    case LO_NETRECV:
      if (present & 1) { iport_t* o = out[(int)q->target]; int rv = A[(int)rx->trig[0].idx].value; lf_set(o, rv);
#ifdef FEDERATED_DECENTRALIZED
        o->intended_tag = act_trig[(int)rx->trig[0].idx].intended_tag;
#endif
      }
      break;
#endif
    }
  }
  tag_t g2 = lf_tag(env);
  hx_tag(INST, x, g2.time - start_time, g2.microstep);
  hx_end(INST, x, kind, self->state);
}

#define RX(i)                                                                                                          \
  static void rx_b##i(void* s) { body((self_t*)s, i, HK_BODY, pr->reaction[i].body, pr->reaction[i].nbody); }          \
  static void rx_d##i(void* s) { body((self_t*)s, i, HK_DEADLINE, pr->reaction[i].handler, pr->reaction[i].nhandler); } \
  static void rx_s##i(void* s) { body((self_t*)s, i, HK_STP, pr->reaction[i].handler, pr->reaction[i].nhandler); }
RX(0) RX(1) RX(2) RX(3) RX(4) RX(5) RX(6) RX(7) RX(8) RX(9) RX(10) RX(11) RX(12) RX(13) RX(14) RX(15) RX(16) RX(17) RX(18) RX(19) RX(20) RX(21) RX(22) RX(23)
#define TAB(p) { rx_##p##0, rx_##p##1, rx_##p##2, rx_##p##3, rx_##p##4, rx_##p##5, rx_##p##6, rx_##p##7, rx_##p##8, rx_##p##9, rx_##p##10, rx_##p##11, rx_##p##12, rx_##p##13, rx_##p##14, rx_##p##15, rx_##p##16, rx_##p##17, rx_##p##18, rx_##p##19, rx_##p##20, rx_##p##21, rx_##p##22, rx_##p##23 }
static const reaction_function_t rxf_b[] = TAB(b), rxf_d[] = TAB(d), rxf_s[] = TAB(s);

// ------------------------------------------------------------------ watchdogs
#ifndef LF_SINGLE_THREADED
static void wd_run(self_base_t* b, int w) {
  const ls_watchdog* d = &pr->wd[w];
  hx_wd(INST, w, 2, 0);
  if (d->action >= 0) {
    int seq = hx_async_begin(INST, d->action, 0);
    int h = lf_schedule_int(&A[(int)d->action], 0, seq);
    hx_async_end(INST, d->action, seq, h);
  }
  static int fired[LS_MAXW]; fired[w]++;
  for (int i = 0; i < d->nbody; i++) {
    if (!ls_guard(&d->body[i], fired[w] - 1, 0, 0)) continue;
    if (d->body[i].op == LO_ADVANCE) mc_advance(d->body[i].arg);
    else if (d->body[i].op == LO_WDSTART) { hx_wd(INST, d->body[i].target, 0, d->body[i].arg); lf_watchdog_start(&W[(int)d->body[i].target], d->body[i].arg); }
    else if (d->body[i].op == LO_STOP) { hx_stop_called(INST, 0, true); lf_request_stop(); hx_stop_called(INST, 1, true); }
  }
  hx_wd(INST, w, 3, 0);
}
static void wd0(void* b) { wd_run((self_base_t*)b, 0); }
static void wd1(void* b) { wd_run((self_base_t*)b, 1); }
#endif

// ------------------------------------------------------------------ code-generated interface
#ifdef MODAL_REACTORS
static int encl(int reactor, int mode) { return mode >= 0 ? mode : pr->parent_mode[reactor]; }
#define MODE_OF(reactor, mode) (encl(reactor, mode) >= 0 ? &M[encl(reactor, mode)] : NULL)
#else
#define MODE_OF(reactor, mode) NULL
#endif

extern int default_argc; extern const char** default_argv;
void lf_set_default_command_line_options(void) {
  const ls_prog* p = hx_prog(INST);
  static const char* d[24];
  if (!p->dargc) return;
  d[0] = "dummy";
  for (int i = 0; i < p->dargc; i++) d[i + 1] = p->dargv[i];
  default_argc = p->dargc + 1; default_argv = d;
}

#ifdef FEDERATED
size_t _lf_zero_delay_cycle_action_table_size = 0;
#ifdef FEDERATED_DECENTRALIZED
staa_t* staa_lst[LS_MAXNET];
size_t staa_lst_size = 0;
static staa_t staa_store[LS_MAXNET];
static lf_action_base_t* staa_actions[LS_MAXNET][LS_MAXNET];
#endif
lf_action_base_t* _lf_action_table[LS_MAXNET];
interval_t _lf_action_delay_table[LS_MAXNET];
size_t _lf_action_table_size;
lf_action_base_t* _lf_zero_delay_cycle_action_table[LS_MAXNET];
reaction_t* network_input_reactions[LS_MAXNET];
size_t num_network_input_reactions;
reaction_t* port_absent_reaction[LS_MAXNET];
size_t num_port_absent_reactions;
uint16_t _lf_zero_delay_cycle_upstream_ids[LS_MAXNET];
extern federate_instance_t _fed;
extern lf_mutex_t lf_outbound_socket_mutex;
extern lf_cond_t lf_port_status_changed;
void lf_send_neighbor_structure_to_RTI(int socket) {
  unsigned char b[1 + 2 * sizeof(int32_t) + 3 * (sizeof(uint16_t) + sizeof(int64_t)) + 3 * sizeof(uint16_t)];
  size_t n = 0;
  b[n++] = MSG_TYPE_NEIGHBOR_STRUCTURE;
  encode_int32(pr->nup, b + n); n += sizeof(int32_t);
  encode_int32(pr->ndown, b + n); n += sizeof(int32_t);
  for (int i = 0; i < pr->nup; i++) { encode_uint16((uint16_t)pr->up[i], b + n); n += sizeof(uint16_t); encode_int64(pr->up_delay[i], b + n); n += sizeof(int64_t); }
  for (int i = 0; i < pr->ndown; i++) { encode_uint16((uint16_t)pr->down[i], b + n); n += sizeof(uint16_t); }
  write_to_socket_fail_on_error(&socket, n, b, NULL, "Failed to send the neighbor structure.");
}
#else
void lf_terminate_execution(environment_t* env) { (void)env; }
#endif
#ifdef FEDERATED_CENTRALIZED
void logical_tag_complete(tag_t t) { lf_latest_tag_confirmed(t); }
#elif !defined(LF_SINGLE_THREADED)
void logical_tag_complete(tag_t t) { (void)t; }
#endif
int _lf_get_environments(environment_t** e) { *e = envs; return 1; }

void lf_create_environments(void) {
  pr = hx_prog(INST); gr = hx_graph(INST);
  hx_sizes(INST, sizeof(lf_token_t), 3 * sizeof(int));
  int su = 0, sd = 0, rs = 0, ip = 0, nm = 0, nr = 0;
  for (int x = 0; x < pr->nreaction; x++)
    for (int k = 0; k < pr->reaction[x].ntrig; k++) {
      su += pr->reaction[x].trig[k].kind == LT_STARTUP;
      sd += pr->reaction[x].trig[k].kind == LT_SHUTDOWN;
      rs += pr->reaction[x].trig[k].kind == LT_RESET;
    }
  for (int p = 0; p < pr->nport; p++) ip += !pr->port[p].input;
  ip += pr->naction;
#ifdef MODAL_REACTORS
  for (int r = 0; r < pr->nreactor; r++) {
    bool modal = false;
    for (int m = 0; m < pr->nmode; m++) modal |= pr->mode[m].reactor == r;
    nm += modal;
    nr += pr->state_reset[r];
  }
#endif
  environment_init(&envs[0], "main", 0, (int)_lf_number_of_workers, pr->ntimer, su, sd, rs, ip, nm, nr, pr->nwd, NULL);
}

static void init_trigger(trigger_t* t) {
  t->last_tag = NEVER_TAG;
#ifdef FEDERATED
  t->last_known_status_tag = NEVER_TAG;
  t->intended_tag = (tag_t){.time = NEVER, .microstep = 0u};
  t->physical_time_of_arrival = NEVER;
#endif
}

void _lf_initialize_trigger_objects(void) {
  environment_t* env = &envs[0];
  int su = 0, sd = 0, rs = 0, ip = 0;
  for (int r = 0; r < pr->nreactor; r++) {
    R[r] = (self_t*)lf_new_reactor(sizeof(self_t));
    R[r]->id = r;
    R[r]->base.environment = env;
#ifndef LF_SINGLE_THREADED
    R[r]->base.reactor_mutex = NULL;
#endif
  }
#ifdef MODAL_REACTORS
  int nms = 0, nsr = 0;
  for (int m = 0; m < pr->nmode; m++) {
    M[m].state = &R[(int)pr->mode[m].reactor]->base._lf__mode_state;
    M[m].name = mode_names[m];
    M[m].deactivation_time = 0;
    M[m].flags = 0;
    if (pr->mode[m].initial) {
      reactor_mode_state_t* st = M[m].state;
      st->parent_mode = pr->parent_mode[(int)pr->mode[m].reactor] >= 0 ? &M[(int)pr->parent_mode[(int)pr->mode[m].reactor]] : NULL;
      st->initial_mode = &M[m]; st->current_mode = &M[m]; st->next_mode = NULL; st->mode_change = no_transition;
    }
  }
  for (int r = 0; r < pr->nreactor; r++)
    if (R[r]->base._lf__mode_state.initial_mode) env->modes->modal_reactor_states[nms++] = &R[r]->base._lf__mode_state;
  for (int r = 0; r < pr->nreactor; r++)
    if (pr->state_reset[r]) {
      mode_state_variable_reset_data_t* d = &env->modes->state_resets[nsr++];
      d->mode = &M[(int)pr->parent_mode[r]];
      d->target = &R[r]->state; d->source = &zero_state; d->size = sizeof(uint64_t);
    }
#endif
  // ports
  for (int p = 0; p < pr->nport; p++) {
    self_t* s = R[(int)pr->port[p].reactor];
    init_trigger(&in_trig[p]);
    if (pr->port[p].input) continue;
    out[p] = (iport_t*)lf_allocate(1, sizeof(tport_t), &s->base.allocations);
    out[p]->_base.source_reactor = (self_base_t*)s;
    out[p]->_base.destination_channel = -1;
    out[p]->_base.sparse_record = NULL;
    if (pr->port[p].token) {
      _lf_initialize_template((token_template_t*)out[p], sizeof(int));
      if (pr->port[p].token == 2) { tport_t* o = (tport_t*)out[p]; lf_set_destructor(o, payload_dtor); lf_set_copy_constructor(o, payload_copy); }
    } else out[p]->type.element_size = sizeof(int);
    env->is_present_fields[ip++] = &out[p]->is_present;
    bool seen[LS_MAXR]; memset(seen, 0, sizeof seen);
    for (int c = 0; c < pr->nport; c++) // destinations are counted per reactor
      if (pr->port[c].input && gr->source[c] == p && !seen[(int)pr->port[c].reactor]) { seen[(int)pr->port[c].reactor] = true; out[p]->_base.num_destinations++; }
  }
  // actions and timers
  for (int a = 0; a < pr->naction; a++) {
    const ls_action* s = &pr->action[a];
    trigger_t* t = &act_trig[a];
    init_trigger(t);
    t->is_timer = false; t->offset = s->min_delay; t->period = s->min_spacing; t->is_physical = s->physical;
    t->policy = s->policy == LP_DROP ? drop : s->policy == LP_REPLACE ? replace : defer;
    t->mode = MODE_OF(s->reactor, s->mode);
    A[a]._base.trigger = t; A[a].parent = (self_base_t*)R[(int)s->reactor];
    A[a].type.element_size = s->value ? sizeof(int) : 0;
    t->tmplt.type.element_size = A[a].type.element_size;
    if (s->value) {
      _lf_initialize_template((token_template_t*)t, sizeof(int));
      _lf_initialize_template((token_template_t*)&A[a], sizeof(int));
    }
    t->status = absent;
    env->is_present_fields[ip++] = (bool*)&t->status;
#ifdef FEDERATED
    if (s->netin >= 0) {
      _lf_action_table[(int)s->netin] = (lf_action_base_t*)&A[a];
      _lf_action_delay_table[(int)s->netin] = pr->netin[(int)s->netin].delay;
      t->is_physical = pr->netin[(int)s->netin].physical;
      A[a].source_id = pr->netin[(int)s->netin].peer;
      _lf_action_table_size++;
      if (pr->netin[(int)s->netin].zdc) _lf_zero_delay_cycle_action_table[_lf_zero_delay_cycle_action_table_size++] = (lf_action_base_t*)&A[a];
    }
#endif
  }
  for (int t = 0; t < pr->ntimer; t++) {
    trigger_t* q = &tim_trig[t];
    init_trigger(q);
    q->is_timer = true; q->offset = pr->timer[t].offset; q->period = pr->timer[t].period;
    q->mode = MODE_OF(pr->timer[t].reactor, pr->timer[t].mode);
    env->timer_triggers[t] = q;
  }
  // reactions
  int num[LS_MAXR]; memset(num, 0, sizeof num);
  for (int x = 0; x < pr->nreaction; x++) {
    const ls_reaction* s = &pr->reaction[x];
    reaction_t* q = &X[x];
    self_t* self = R[(int)s->reactor];
    q->function = rxf_b[x]; q->self = self; q->number = num[(int)s->reactor]++;
    q->index = lf_combine_deadline_and_level(gr->inferred[x], gr->level[x]);
    q->last_enabling_reaction = gr->enabling[x] >= 0 ? &X[gr->enabling[x]] : NULL;
    q->deadline = s->deadline;
    q->deadline_violation_handler = s->deadline >= 0 && s->has_handler ? rxf_d[x] : NULL;
    q->STP_handler = s->has_stp ? rxf_s[x] : NULL;
    q->name = rx_names[x];
    q->mode = MODE_OF(s->reactor, s->mode);
    q->num_outputs = s->neff;
    if (s->neff) {
      q->output_produced = (bool**)lf_allocate(s->neff, sizeof(bool*), &self->base.allocations);
      q->triggered_sizes = (int*)lf_allocate(s->neff, sizeof(int), &self->base.allocations);
      q->triggers = (trigger_t***)lf_allocate(s->neff, sizeof(trigger_t**), &self->base.allocations);
      for (int e = 0; e < s->neff; e++) {
        int p = s->eff[e], n = 0;
        q->output_produced[e] = &out[p]->is_present;
        for (int c = 0; c < pr->nport; c++) n += pr->port[c].input && gr->source[c] == p;
        q->triggered_sizes[e] = n;
        if (n) q->triggers[e] = (trigger_t**)lf_allocate(n, sizeof(trigger_t*), &self->base.allocations);
        n = 0;
        for (int c = 0; c < pr->nport; c++) if (pr->port[c].input && gr->source[c] == p) q->triggers[e][n++] = &in_trig[c];
      }
    }
    for (int k = 0; k < s->ntrig; k++) {
      switch (s->trig[k].kind) {
      case LT_STARTUP: env->startup_reactions[su++] = q; break;
      case LT_SHUTDOWN: env->shutdown_reactions[sd++] = q; break;
      case LT_RESET: env->reset_reactions[rs++] = q; break;
#ifdef FEDERATED
      case LT_NETABSENT: port_absent_reaction[num_port_absent_reactions++] = q; break;
#endif
      case LT_ACTION:
#ifdef FEDERATED
        if (pr->action[(int)s->trig[k].idx].netin >= 0) { q->is_an_input_reaction = true; network_input_reactions[num_network_input_reactions++] = q; }
#endif
        break;
      }
    }
  }
  // trigger -> reactions
  for (int k = 0; k < 3; k++) {
    int n = k == 0 ? pr->naction : k == 1 ? pr->ntimer : pr->nport;
    for (int i = 0; i < n; i++) {
      trigger_t* t = k == 0 ? &act_trig[i] : k == 1 ? &tim_trig[i] : &in_trig[i];
      int kind = k == 0 ? LT_ACTION : k == 1 ? LT_TIMER : LT_PORT, cnt = 0;
      int owner = k == 0 ? pr->action[i].reactor : k == 1 ? pr->timer[i].reactor : pr->port[i].reactor;
      if (kind == LT_PORT && !pr->port[i].input) continue;
      reaction_t* tmp[LS_MAXX];
      for (int x = 0; x < pr->nreaction; x++)
        for (int j = 0; j < pr->reaction[x].ntrig; j++)
          if (pr->reaction[x].trig[j].kind == kind && pr->reaction[x].trig[j].idx == i) tmp[cnt++] = &X[x];
      t->number_of_reactions = cnt;
      t->reactions = (reaction_t**)lf_allocate(cnt ? cnt : 1, sizeof(reaction_t*), &R[owner]->base.allocations);
      memcpy(t->reactions, tmp, cnt * sizeof(reaction_t*));
    }
  }
#ifndef LF_SINGLE_THREADED
  for (int w = 0; w < pr->nwd; w++) {
    self_t* s = R[(int)pr->wd[w].reactor];
    W[w].base = (struct self_base_t*)s;
    if (!s->base.reactor_mutex) s->base.reactor_mutex = calloc(1, sizeof(lf_mutex_t));
    W[w].trigger = pr->wd[w].action >= 0 ? &act_trig[(int)pr->wd[w].action] : NULL;
    W[w].expiration = NEVER; W[w].min_expiration = pr->wd[w].timeout; W[w].watchdog_function = w ? wd1 : wd0;
    env->watchdogs[w] = &W[w];
  }
  static size_t per_level[LS_MAXX];
  for (int i = 0; i < gr->nlevels; i++) per_level[i] = gr->per_level[i];
  sched_params_t sp = {.num_reactions_per_level = per_level, .num_reactions_per_level_size = (size_t)gr->nlevels};
  lf_sched_init(env, (size_t)env->num_workers, &sp);
#endif
#ifdef LF_TRACE
  static char names[LS_MAXR + LS_MAXA + LS_MAXT][8]; int nn = 0;
  for (int r = 0; r < pr->nreactor; r++) { snprintf(names[nn], 8, "r%d", r); _lf_register_trace_event(R[r], NULL, trace_reactor, names[nn++]); }
  for (int a = 0; a < pr->naction; a++) { snprintf(names[nn], 8, "a%d", a); _lf_register_trace_event(R[(int)pr->action[a].reactor], &act_trig[a], trace_trigger, names[nn++]); }
  for (int t = 0; t < pr->ntimer; t++) { snprintf(names[nn], 8, "t%d", t); _lf_register_trace_event(R[(int)pr->timer[t].reactor], &tim_trig[t], trace_trigger, names[nn++]); }
  for (int x = 0; x < pr->nreaction; x++) register_user_trace_event(R[0], (char*)rx_names[x]);
#endif
#ifdef FEDERATED
#include "lfgen_fed.inc"
#endif
}

int lf_reactor_c_main(int argc, const char* argv[]);
int lf_gen_main(void* arg) {
  inst_number = (int)(intptr_t)arg;
  const ls_prog* p = hx_prog(INST);
  // The command line is the one a user would give.
  static char buf[8][40];
  static const char* argv[24];
  int n = 0;
  argv[n++] = "prog";
  if (!p->rawargs) {
  if (p->fast) { argv[n++] = "-f"; argv[n++] = "true"; }
  if (p->keepalive) { argv[n++] = "-k"; argv[n++] = "true"; }
  if (p->timeout >= 0) { snprintf(buf[0], 40, "%lld", (long long)p->timeout); argv[n++] = "-o"; argv[n++] = buf[0]; argv[n++] = "nsec"; }
  if (p->workers > 0) { snprintf(buf[1], 40, "%d", p->workers); argv[n++] = "-w"; argv[n++] = buf[1]; }
  }
  for (int i = 0; i < p->argc; i++) argv[n++] = p->argv[i];
  return lf_reactor_c_main(n, argv);
}
