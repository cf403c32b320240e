// Clock synchronisation of a federate against a scripted RTI. Time is virtual: it moves only when a message arrives or is written.
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <time.h>
#include <unistd.h>
#include <sys/wait.h>
#include "reactor.h"
#include "environment.h"
#include "util.h"
#include "clock-sync.h"
#include "net_common.h"
#include "net_util.h"
#define TCP 1000
#define UDP 1001
typedef struct { long long gap, theta; int n, again; unsigned char b[64]; int pos; } in_t; // arrives gap after the previous thing; the federate's clock is then theta ahead
typedef struct { long long gap; int fail, shortw; } wr_t;
static in_t* in; static wr_t* wr;
static int nin, iin, nwr, iwr, udp_phase;
static long long now, theta;
static FILE* ans;
static environment_t env = {.name = "federate"};
int _lf_get_environments(environment_t** e) { *e = &env; return 1; }
static void quiet(const char* f, va_list ap) { (void)f; (void)ap; }
static long long offset(void) { instant_t t = 1000000000000LL; clock_sync_add_offset(&t); return t - 1000000000000LL; }
int __wrap__lf_clock_gettime(instant_t* t) { *t = now + theta; return 0; }
instant_t __wrap_lf_time_physical(void) { instant_t t = now + theta; clock_sync_add_offset(&t); return t; }
int __wrap_lf_sleep(interval_t d) { (void)d; return 0; }
int __wrap_socket(int d, int t, int p) { (void)d; (void)p; return (t & 0xf) == SOCK_DGRAM ? UDP : -1; }
int __wrap_bind(int f, const struct sockaddr* a, socklen_t l) { (void)f; (void)a; (void)l; return 0; }
int __wrap_setsockopt(int f, int l, int n, const void* v, socklen_t k) { (void)f; (void)l; (void)n; (void)v; (void)k; return 0; }
int __wrap_getsockname(int f, struct sockaddr* a, socklen_t* l) { (void)f; (void)l; ((struct sockaddr_in*)a)->sin_port = htons(17042); return 0; }
static int peer;
int __wrap_connect(int f, const struct sockaddr* a, socklen_t l) { (void)l; if (f == UDP) peer = ntohs(((const struct sockaddr_in*)a)->sin_port); return 0; }
static ssize_t take(int fd, void* b, size_t n) {
  if (iin < nin && in[iin].again > 0) { in[iin].again--; errno = EAGAIN; return -1; }
  if (iin >= nin) { errno = ECONNRESET; return fd == TCP ? 0 : -1; }
  in_t* m = &in[iin];
  if (m->pos == 0) {
    fprintf(ans, "o %lld ", offset()); // before each message: the offset that holds by now
    now += m->gap; theta = m->theta;
  }
  if (fd == UDP) { // one datagram
    size_t k = (size_t)m->n < n ? (size_t)m->n : n;
    memcpy(b, m->b, k); iin++;
    return k;
  }
  size_t k = (size_t)(m->n - m->pos) < n ? (size_t)(m->n - m->pos) : n;
  if (k > 1 && m->again == -1 && m->pos == 0) k = 1 + k / 2; // in two parts
  memcpy(b, m->b + m->pos, k);
  m->pos += k;
  if (m->pos == m->n) iin++;
  return k;
}
ssize_t __real_read(int, void*, size_t);
ssize_t __wrap_read(int fd, void* b, size_t n) { return fd == TCP || fd == UDP ? take(fd, b, n) : __real_read(fd, b, n); }
ssize_t __wrap_recv(int fd, void* b, size_t n, int f) { (void)f; return take(fd, b, n); }
ssize_t __wrap_recvfrom(int fd, void* b, size_t n, int f, struct sockaddr* a, socklen_t* l) {
  (void)f;
  if (a) { memset(a, 0, *l); ((struct sockaddr_in*)a)->sin_family = AF_INET; ((struct sockaddr_in*)a)->sin_port = htons(15045); }
  return take(fd, b, n);
}
ssize_t __real_write(int, const void*, size_t);
static ssize_t put(int fd, const void* b, size_t n) {
  wr_t* w = iwr < nwr ? &wr[iwr] : NULL;
  if (w && w->shortw && fd == TCP && n > 1) { w->shortw = 0; n = n / 2; } else { iwr++; if (w) now += w->gap; }
  if (w && w->fail) { errno = ECONNREFUSED; return -1; }
  fprintf(ans, "w%d ", fd);
  for (size_t i = 0; i < n; i++) fprintf(ans, "%02x", ((const unsigned char*)b)[i]);
  fprintf(ans, " ");
  return n;
}
ssize_t __wrap_write(int fd, const void* b, size_t n) { return fd == TCP || fd == UDP ? put(fd, b, n) : __real_write(fd, b, n); }
ssize_t __wrap_send(int fd, const void* b, size_t n, int f) { (void)f; return put(fd, b, n); }
ssize_t __wrap_sendto(int fd, const void* b, size_t n, int f, const struct sockaddr* a, socklen_t l) { (void)f; (void)a; (void)l; return put(fd, b, n); }
void* listen_to_rti_UDP_thread(void* args);
extern int _lf_my_fed_id;
static char* s;
static long long rd(void) { return strtoll(s, &s, 10); }
static void script(void) {
  nin = rd();
  in = calloc(nin + 1, sizeof *in);
  for (int i = 0; i < nin; i++) {
    in[i].gap = rd(); in[i].theta = rd(); in[i].again = rd(); in[i].n = rd();
    in[i].b[0] = rd();
    long long v = rd();
    for (int k = 0; k < 8; k++) in[i].b[1 + k] = (unsigned char)(v >> (8 * k));
  }
  nwr = rd();
  wr = calloc(nwr + 1, sizeof *wr);
  for (int i = 0; i < nwr; i++) { wr[i].gap = rd(); wr[i].fail = rd(); wr[i].shortw = rd(); }
  iin = iwr = 0;
}
static int one(void) {
  _lf_my_fed_id = rd();
  clock_sync_set_constant_bias(rd());
  now = rd(); theta = rd();
  fprintf(ans, "port %d ", setup_clock_synchronization_with_rti());
  int phases = rd();
  if (phases & 1) {
    script();
    int t = TCP;
    synchronize_initial_physical_clock_with_rti(&t);
    fprintf(ans, "i %lld %d %d ", offset(), iin, iwr);
  }
  if (phases & 2) {
    script();
    lf_thread_t th;
    void* r;
    if (create_clock_sync_thread(&th)) fprintf(ans, "nothread ");
    else if (LF_CLOCK_SYNC >= LF_CLOCK_SYNC_ON) lf_thread_join(th, &r);
    fprintf(ans, "u %lld %d %d %d ", offset(), iin, iwr, peer);
  }
  int n = rd();
  for (int i = 0; i < n; i++) {
    instant_t a = rd(), b = a;
    clock_sync_add_offset(&a);
    clock_sync_subtract_offset(&b);
    fprintf(ans, "%lld %lld ", (long long)a, (long long)b);
  }
  fprintf(ans, "end\n");
  fflush(ans);
  return 0;
}
int main(void) { // one process per case: the offset and the statistics are static
  int fd = dup(1);
  ans = fdopen(fd, "w");
  freopen("/dev/null", "w", stdout);
  lf_register_print_function(quiet, 100);
  char* line = NULL;
  size_t cap = 0;
  while (getline(&line, &cap, stdin) > 0) {
    s = line;
    int st = 0;
    pid_t p = fork();
    if (p == 0) { alarm(20); one(); _exit(0); }
    waitpid(p, &st, 0);
    if (st) { fprintf(ans, " died %d\n", st); fflush(ans); }
  }
  return 0;
}
