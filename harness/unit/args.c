// Runs process_args on generated argument vectors. A line is: vectors, each "n hex hex ...". Every string and vector is allocated
// exactly, so that reading beyond it is seen by AddressSanitizer.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include "reactor.h"
#include "reactor_common.h"
#include "environment.h"
#include "util.h"
#ifdef FEDERATED
#include "federate.h"
extern federation_metadata_t federation_metadata;
#endif
extern bool fast;
extern instant_t duration;
extern bool keepalive_specified;
extern unsigned int _lf_number_of_workers;
static int errors;
static void quiet(const char* f, va_list ap) {
  (void)f;
  (void)ap;
}
int main(void) {
  int fd = dup(1);
  FILE* ans = fdopen(fd, "w");
  freopen("/dev/null", "w", stdout);
  lf_register_print_function(quiet, 100);
  char* line = NULL;
  size_t cap = 0;
  while (getline(&line, &cap, stdin) > 0) {
    fast = false;
    duration = -1;
    keepalive_specified = false;
    _lf_number_of_workers = 4242;
#ifdef FEDERATED
    lf_set_federation_id("unset");
    federation_metadata.rti_host = NULL;
    federation_metadata.rti_port = -1;
    federation_metadata.rti_user = NULL;
#endif
    int ret = 1;
    const char* keep[512];
    int nk = 0;
    const char** vecs[8];
    int nv = 0;
    char* s = line;
    while (ret && *s && *s != '\n') {
      int n = (int)strtol(s, &s, 10);
      const char** argv = malloc(n * sizeof(char*));
      vecs[nv++] = argv;
      for (int i = 0; i < n; i++) {
        s++;            // ' '
        s++;            // 'x'
        char* e = s;
        while (*e != ' ' && *e != '\n') e++;
        size_t len = (e - s) / 2;
        char* a = malloc(len + 1);
        for (size_t k = 0; k < len; k++) {
          unsigned v;
          sscanf(s + 2 * k, "%2x", &v);
          a[k] = (char)v;
        }
        a[len] = 0;
        argv[i] = a;
        keep[nk++] = a;
        s = e;
      }
      if (*s == ' ') s++;
      ret = process_args(n, argv);
    }
    fprintf(ans, "%d %d %lld %d %u ", ret, fast, (long long)duration, keepalive_specified, _lf_number_of_workers);
#ifdef FEDERATED
    fprintf(ans, "%s|%s|%d|%s", federation_metadata.federation_id, federation_metadata.rti_host ? federation_metadata.rti_host : "unset",
            federation_metadata.rti_port, federation_metadata.rti_user ? federation_metadata.rti_user : "unset");
    free((void*)federation_metadata.rti_host);
    free((void*)federation_metadata.rti_user);
#endif
    fprintf(ans, "\n");
    fflush(ans);
    for (int i = 0; i < nk; i++) free((void*)keep[i]);
    for (int i = 0; i < nv; i++) free(vecs[i]);
    (void)errors;
  }
  return 0;
}
