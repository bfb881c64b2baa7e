#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include "environment.h"
#include "reactor.h"
#include "reactor_common.h"
#include "util.h"
#include "cli.h"
#ifdef FEDERATED
#include "federate.h"
extern federation_metadata_t federation_metadata;
#endif
extern bool fast, keepalive_specified; extern instant_t duration; extern unsigned int _lf_number_of_workers;
static void (*on)(int);
static void pr(const char* f, va_list a) { (void)a; on(strstr(f, "ERROR") || strstr(f, "FATAL") ? 1 : 0); }
void cli_errors(void (*f)(int)) { on = f; lf_register_print_function(pr, LOG_LEVEL_INFO); }
void cli_set(const cli_t* c) {
  fast = c->fast; keepalive_specified = c->keepalive; duration = c->duration; _lf_number_of_workers = c->workers;
#ifdef FEDERATED
  free((void*)federation_metadata.rti_host); free((void*)federation_metadata.rti_user);
  federation_metadata.rti_host = c->host[0] ? strdup(c->host) : NULL; federation_metadata.rti_user = c->user[0] ? strdup(c->user) : NULL; federation_metadata.rti_port = c->port;
  lf_set_federation_id(c->id);
#endif
}
void cli_get(cli_t* c) {
  memset(c, 0, sizeof *c);
  c->fast = fast; c->keepalive = keepalive_specified; c->duration = duration; c->workers = _lf_number_of_workers;
#ifdef FEDERATED
  if (federation_metadata.rti_host) strncpy(c->host, federation_metadata.rti_host, 299);
  if (federation_metadata.rti_user) strncpy(c->user, federation_metadata.rti_user, 299);
  c->port = federation_metadata.rti_port; strncpy(c->id, federation_metadata.federation_id, 299);
#endif
}
int cli_parse(int n, const char** v) { return process_args(n, v); }
int cli_stop_tag(long long start, long long* t, unsigned* m) {
  static environment_t env;
  environment_init_tags(&env, start, duration);
  *t = env.stop_tag.time; *m = env.stop_tag.microstep;
  return env.current_tag.time == start && env.current_tag.microstep == 0;
}
