#define main rti_main
#include "core/federated/RTI/main.c"
#undef main
#include <stdarg.h>
#include <stdlib.h>
#include "util.h"
#include "cli.h"
static void (*on)(int);
static void pr(const char* f, va_list a) { (void)a; on(strstr(f, "ERROR") || strstr(f, "FATAL") ? 1 : 0); }
void cli_errors(void (*f)(int)) { on = f; lf_register_print_function(pr, LOG_LEVEL_INFO); initialize_RTI(&rti); }
void cli_set(const cli_t* c) {
  rti.base.number_of_scheduling_nodes = c->nodes; rti.user_specified_port = (uint16_t)c->port; rti.clock_sync_global_status = (clock_sync_stat)c->clock;
  rti.clock_sync_period_ns = c->period; rti.clock_sync_exchanges_per_interval = c->exchanges; rti.authentication_enabled = c->auth; rti.base.tracing_enabled = c->tracing; rti.federation_id = c->id;
}
void cli_get(cli_t* c) {
  memset(c, 0, sizeof *c);
  c->nodes = rti.base.number_of_scheduling_nodes; c->port = rti.user_specified_port; c->clock = (int)rti.clock_sync_global_status; c->period = rti.clock_sync_period_ns;
  c->exchanges = rti.clock_sync_exchanges_per_interval; c->auth = rti.authentication_enabled; c->tracing = rti.base.tracing_enabled; strncpy(c->id, rti.federation_id, 299);
}
int cli_parse(int n, const char** v) { return process_args(n, v); }
int cli_stop_tag(long long s, long long* t, unsigned* m) { *t = s; *m = 0; return 1; }
