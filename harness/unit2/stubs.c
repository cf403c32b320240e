// What the code generator would provide, for harnesses that use the runtime as a library.
#include "environment.h"
#include "reactor.h"
#include "tag.h"
static environment_t* no_env;
__attribute__((weak)) int _lf_get_environments(environment_t** envs) {
  *envs = no_env;
  return 0;
}
__attribute__((weak)) void logical_tag_complete(tag_t t) { (void)t; }
__attribute__((weak)) void lf_set_default_command_line_options(void) {}
__attribute__((weak)) void lf_terminate_execution(environment_t* env) { (void)env; }
__attribute__((weak)) void _lf_initialize_trigger_objects(void) {}
__attribute__((weak)) void terminate_execution(environment_t* env) { (void)env; }
__attribute__((weak)) void lf_create_environments(void) {}
__attribute__((weak)) void _lf_create_environments(void) {}
#ifdef FEDERATED
#include "federate.h"
__attribute__((weak)) lf_action_base_t* _lf_action_table[1];
__attribute__((weak)) interval_t _lf_action_delay_table[1];
__attribute__((weak)) size_t _lf_action_table_size = 0;
__attribute__((weak)) lf_action_base_t* _lf_zero_delay_cycle_action_table[1];
__attribute__((weak)) size_t _lf_zero_delay_cycle_action_table_size = 0;
__attribute__((weak)) reaction_t* network_input_reactions[1];
__attribute__((weak)) size_t num_network_input_reactions = 0;
__attribute__((weak)) reaction_t* port_absent_reaction[1];
__attribute__((weak)) size_t num_port_absent_reactions = 0;
__attribute__((weak)) void* staa_lst[1];
__attribute__((weak)) size_t staa_lst_size = 0;
__attribute__((weak)) void lf_send_neighbor_structure_to_RTI(int s) { (void)s; }
__attribute__((weak)) void staa_initialization(void) {}
__attribute__((weak)) void lf_execute_termination(void) {}
__attribute__((weak)) void lf_initialize_federates(void) {}
#endif
