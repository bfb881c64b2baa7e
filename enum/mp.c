// A reactor with two input multiports and a plain output, as generated code lays them out.
#include <stdlib.h>
#include <string.h>
#include "environment.h"
#include "reactor.h"
#include "reactor_common.h"
#include "lf_types.h"
#include "port.h"
#include "lf_token.h"
#undef lf_set_present
typedef struct { lf_port_base_t base; int value; } port_t;
extern int _lf_count_token_allocations;
static environment_t env; static self_base_t self;
#define MAXW 16
static port_t* port[2][MAXW]; static port_t unconnected; static lf_port_base_t* arr[2][MAXW]; static lf_sparse_io_record_t* rec[2]; static int width[2];
int mp_workers = 2;
// capacity < 0: no sparse record
void mp_init(int w0, int c0, int w1, int c1, int tokens) {
  int w[2] = {w0, w1}, c[2] = {c0, c1}, k = 0;
  memset(&env, 0, sizeof env); memset(&self, 0, sizeof self);
  environment_init(&env, "e", 0, mp_workers, 0, 0, 0, 0, w0 + w1, 0, 0, 0, NULL);
  env.execution_started = true;
  self.environment = &env;
  for (int i = 0; i < 2; i++) {
    width[i] = w[i]; rec[i] = NULL;
    if (c[i] >= 0) {
      rec[i] = (lf_sparse_io_record_t*)calloc(1, sizeof(lf_sparse_io_record_t));
      rec[i]->capacity = (size_t)c[i]; rec[i]->size = 0; rec[i]->present_channels = (size_t*)malloc(sizeof(size_t) * (size_t)c[i]);
      if (!env.sparse_io_record_sizes.start) env.sparse_io_record_sizes = vector_new(1);
      vector_push(&env.sparse_io_record_sizes, (void*)&rec[i]->size);
    }
    for (int j = 0; j < w[i]; j++) {
      port_t* p = port[i][j] = (port_t*)calloc(1, sizeof(port_t));
      arr[i][j] = &p->base;
      p->base.source_reactor = &self; p->base.destination_channel = j; p->base.sparse_record = rec[i]; p->base.num_destinations = 2;
      p->base.tmplt.type.element_size = sizeof(int);
      if (tokens) _lf_initialize_template(&p->base.tmplt, sizeof(int));
      env.is_present_fields[k++] = &p->base.is_present;
    }
  }
}
void mp_unconnected(int i, int ch) { arr[i][ch] = &unconnected.base; }
void mp_set(int i, int ch) { lf_set_present(&port[i][ch]->base); }
void mp_step(void) { _lf_start_time_step(&env); }
int mp_present(int i, int ch) { return port[i][ch]->base.is_present; }
static unsigned long mix(unsigned long a, unsigned long b) { unsigned long x = a * 0x9E3779B97F4A7C15UL + b + 1; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9UL; return x ^ (x >> 32); }
unsigned long mp_hash(void) {
  unsigned long h = (unsigned long)env.is_present_fields_abbreviated_size;
  for (int i = 0; i < env.is_present_fields_abbreviated_size && i < env.is_present_fields_size; i++) { unsigned long k = 0; while (env.is_present_fields[k] != env.is_present_fields_abbreviated[i]) k++; h = mix(h, k); }
  for (int i = 0; i < 2; i++) { for (int j = 0; j < width[i]; j++) h = mix(h, port[i][j]->base.is_present); if (rec[i]) { h = mix(h, (unsigned long)rec[i]->size); for (int j = 0; j < rec[i]->size; j++) h = mix(h, rec[i]->present_channels[j]); } }
  return h;
}
// results of the iterator, the last one negative; calls go on after the end
int mp_iterate(int i, int* out, int max) {
  lf_multiport_iterator_t it = _lf_multiport_iterator_impl(arr[i], width[i]);
  int n = 0;
  for (; n < max; n++) out[n] = lf_multiport_next(&it);
  return n;
}
int mp_set_array(int i, int ch, void* v, int n) { lf_token_t* t = _lf_initialize_token_with_value(&port[i][ch]->base.tmplt, v, (size_t)n); _lf_set_template_token(&port[i][ch]->base.tmplt, t); mp_set(i, ch); return 0; }
int* mp_value(int i, int ch) { return (int*)port[i][ch]->base.tmplt.token->value; }
size_t mp_length(int i, int ch) { return port[i][ch]->base.tmplt.token->length; }
int* mp_mutate(int i, int ch) { return (int*)lf_writable_copy(&port[i][ch]->base)->value; }
void mp_free(void) {
  _lf_free_token_copies(); _lf_free_all_tokens();
  for (int i = 0; i < 2; i++) { for (int j = 0; j < width[i]; j++) free(port[i][j]); if (rec[i]) { free(rec[i]->present_channels); free(rec[i]); } }
  if (env.sparse_io_record_sizes.start) vector_free(&env.sparse_io_record_sizes);
  environment_free(&env);
}
