// Definitions that generated code provides in a program; the enumerations link only what they use.
#include "environment.h"
#include "reactor.h"
__attribute__((weak)) void _lf_initialize_trigger_objects(void) {}
__attribute__((weak)) void lf_terminate_execution(environment_t* env) { (void)env; }
__attribute__((weak)) void lf_set_default_command_line_options(void) {}
__attribute__((weak)) void _lf_initialize_watchdogs(environment_t** envs) { (void)envs; }
__attribute__((weak)) void logical_tag_complete(tag_t t) { (void)t; }
static environment_t the_env;
__attribute__((weak)) int _lf_get_environments(environment_t** envs) { *envs = &the_env; return 1; }
__attribute__((weak)) const char* lf_reactor_name(self_base_t* s) { (void)s; return "r"; }
__attribute__((weak)) const char* lf_reactor_full_name(self_base_t* s) { (void)s; return "r"; }
__attribute__((weak)) void lf_create_environments(void) {}
#ifdef FEDERATED
__attribute__((weak)) lf_action_base_t* _lf_action_table[1]; __attribute__((weak)) size_t _lf_action_table_size = 0;
__attribute__((weak)) lf_action_base_t* _lf_zero_delay_cycle_action_table[1]; __attribute__((weak)) size_t _lf_zero_delay_cycle_action_table_size = 0;
__attribute__((weak)) reaction_t* port_absent_reaction[1]; __attribute__((weak)) size_t num_port_absent_reactions = 0;
__attribute__((weak)) void lf_send_neighbor_structure_to_RTI(int s) { (void)s; }
#endif
