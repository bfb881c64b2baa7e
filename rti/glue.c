// Inside the island: sets the coordinator up and exposes its state. Everything else goes through the bytes it reads and writes.
#include <string.h>
#include <stdlib.h>
#include "rti_remote.h"
#include "glue.h"
static rti_remote_t R;
extern instant_t start_time;
extern lf_mutex_t rti_mutex;
static federate_info_t* F[GN];
void g_setup(int n, int ne, const int* u, const int* v, const long long* d) {
  initialize_RTI(&R);
  R.base.number_of_scheduling_nodes = n;
  R.base.scheduling_nodes = (scheduling_node_t**)calloc(n, sizeof(void*));
  R.num_feds_proposed_start = n;
  R.max_start_time = G_T0; start_time = G_T0;
  for (int i = 0; i < n; i++) {
    F[i] = (federate_info_t*)calloc(1, sizeof(federate_info_t));
    initialize_federate(F[i], i);
    R.base.scheduling_nodes[i] = (scheduling_node_t*)F[i];
    F[i]->socket = 100 + i;
    scheduling_node_t* s = &F[i]->enclave;
    s->state = GRANTED;
    int up = 0, down = 0;
    for (int e = 0; e < ne; e++) { up += v[e] == i; down += u[e] == i; }
    s->upstream = (uint16_t*)calloc(up + 1, 2); s->upstream_delay = (interval_t*)calloc(up + 1, 8); s->downstream = (uint16_t*)calloc(down + 1, 2);
    for (int e = 0; e < ne; e++) {
      if (v[e] == i) { s->upstream[s->num_upstream] = u[e]; s->upstream_delay[s->num_upstream++] = d[e] < 0 ? NEVER : d[e]; }
      if (u[e] == i) s->downstream[s->num_downstream++] = v[e];
    }
  }
}
void g_newthread(void) { initialize_lf_thread_id(); }
void g_thread(int f) { federate_info_thread_TCP(F[f]); }
// Logical state, for recognising states already seen.
static unsigned long long h;
static void add(unsigned long long x) { h = (h ^ x) * 0x9E3779B97F4A7C15ULL; h ^= h >> 31; }
static void addt(tag_t t) { add(t.time); add(t.microstep); }
unsigned long long g_hash(void) {
  h = 1;
  for (int i = 0; i < R.base.number_of_scheduling_nodes; i++) {
    scheduling_node_t* s = &F[i]->enclave;
    addt(s->completed); addt(s->last_granted); addt(s->last_provisionally_granted); addt(s->next_event); add(s->state); add(F[i]->socket); add(F[i]->requested_stop);
    pqueue_t* q = (pqueue_t*)F[i]->in_transit_message_tags;
    unsigned long long sum = 0;
    for (size_t k = 1; k < q->size; k++) { tag_t t = ((pqueue_tag_element_t*)q->d[k])->tag; unsigned long long x = t.time * 31 + t.microstep; x *= 0x9E3779B97F4A7C15ULL; sum += x ^ (x >> 29); }
    add(sum);
  }
  addt(R.base.max_stop_tag); add(R.base.num_scheduling_nodes_handling_stop); add(R.stop_in_progress);
  return h;
}
void g_show(int f, char* b) {
  scheduling_node_t* s = &F[f]->enclave;
  snprintf(b, 300, "completed (%lld,%u), granted (%lld,%u), provisionally (%lld,%u), next (%lld,%u), state %d", (long long)(s->completed.time - G_T0), s->completed.microstep, (long long)(s->last_granted.time - G_T0), s->last_granted.microstep,
           (long long)(s->last_provisionally_granted.time - G_T0), s->last_provisionally_granted.microstep, (long long)(s->next_event.time - G_T0), s->next_event.microstep, s->state);
}
// Delay analysis
int g_delays(int f, int* ids, long long* t, unsigned* m, int* cyc, int* zdc) {
  scheduling_node_t* s = &F[f]->enclave;
  *zdc = is_in_zero_delay_cycle(s); *cyc = is_in_cycle(s);
  update_min_delays_upstream(s);
  for (size_t i = 0; i < s->num_min_delays; i++) { ids[i] = s->min_delays[i].id; t[i] = s->min_delays[i].min_delay.time; m[i] = s->min_delays[i].min_delay.microstep; }
  return (int)s->num_min_delays;
}
void g_connected(int f, int on) { F[f]->enclave.state = on ? GRANTED : NOT_CONNECTED; }
void g_invalidate(int f) { invalidate_min_delays_upstream(&F[f]->enclave); }
