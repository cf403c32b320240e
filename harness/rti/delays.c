// Asks the RTI's code for the minimum delays and cycles of a topology, one per input line.
// A line is: n, then per node whether it is connected, the number of its upstream nodes and (id, delay) for each; then a list of
// queries (node * 3 + kind) answered in order on the same nodes, kind 0: minimum delays, 1: is in a cycle, 2: is in a zero-delay cycle;
// a negative query -k disconnects node k-1 and invalidates all nodes.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include "rti_common.h"
#include "tag.h"

static char* s;
static long long rd(void) { char* e; long long v = strtoll(s, &e, 10); if (e == s) { fprintf(stderr, "HARNESS: argument missing\n"); _Exit(77); } s = e; return v; }
static int more(void) { while (*s == ' ') s++; return *s && *s != '\n'; }

int main(void) {
  char* line = NULL; size_t cap = 0;
  static rti_common_t R;
  static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
  static char obuf[1 << 18];
  setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
  while (getline(&line, &cap, stdin) > 0) {
    s = line;
    int n = (int)rd();
    memset(&R, 0, sizeof R);
    initialize_rti_common(&R);
    R.mutex = &mu;
    R.number_of_scheduling_nodes = n;
    R.scheduling_nodes = calloc(n, sizeof(scheduling_node_t*));
    for (int i = 0; i < n; i++) {
      scheduling_node_t* e = calloc(1, sizeof *e);
      R.scheduling_nodes[i] = e;
      initialize_scheduling_node(e, i);
      e->state = rd() ? PENDING : NOT_CONNECTED;
      e->num_upstream = (int)rd();
      e->upstream = calloc(e->num_upstream, sizeof(uint16_t));
      e->upstream_delay = calloc(e->num_upstream, sizeof(interval_t));
      for (int k = 0; k < e->num_upstream; k++) { e->upstream[k] = (uint16_t)rd(); e->upstream_delay[k] = rd(); }
    }
    while (more()) {
      long long q = rd();
      if (q < 0) {
        R.scheduling_nodes[-q - 1]->state = NOT_CONNECTED;
        for (int i = 0; i < n; i++) invalidate_min_delays_upstream(R.scheduling_nodes[i]);
        continue;
      }
      scheduling_node_t* e = R.scheduling_nodes[q / 3];
      if (q % 3 == 1) printf("%d ", is_in_cycle(e) ? 1 : 0);
      else if (q % 3 == 2) printf("%d ", is_in_zero_delay_cycle(e) ? 1 : 0);
      else {
        update_min_delays_upstream(e);
        printf("%d ", (int)e->num_min_delays);
        for (int k = 0; k < (int)e->num_min_delays; k++)
          printf("%d %lld %u ", (int)e->min_delays[k].id, (long long)e->min_delays[k].min_delay.time, e->min_delays[k].min_delay.microstep);
      }
    }
    for (int i = 0; i < n; i++) {
      scheduling_node_t* e = R.scheduling_nodes[i];
      invalidate_min_delays_upstream(e);
      free(e->upstream); free(e->upstream_delay); free(e);
    }
    free(R.scheduling_nodes);
    printf("#0\n");
    fflush(stdout);
  }
  return 0;
}
