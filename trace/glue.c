// Access to the tracing API of the code under test.
#include "tracepoint.h"
#include "trace_impl.h"
#include "low_level_platform.h"
int tg_capacity(void) { return TRACE_BUFFER_CAPACITY; }
int tg_objects(void) { return TRACE_OBJECT_TABLE_SIZE; }
void tg_init(char* name, int id, int threads) { lf_tracing_global_init(name, NULL, id, threads); }
void tg_id(void) {
#ifndef LF_SINGLE_THREADED
  initialize_lf_thread_id();
#endif
}
void tg_start(int64_t t) { lf_tracing_set_start_time(t); }
void tg_reg(void* p, void* t, int type, char* d) { _lf_register_trace_event(p, t, (_lf_trace_object_t)type, d); }
void tg_point(int type, void* p, int64_t t, uint32_t m, int worker, int src, int dst, int64_t phys, void* trig, int64_t extra) {
  instant_t now = phys;
  call_tracepoint(type, p, (tag_t){.time = t, .microstep = m}, worker, src, dst, &now, (trigger_t*)trig, extra);
}
void tg_stop(void) { lf_tracing_global_shutdown(); }
