// A whole federation in one process: the real RTI (rti_main) and up to six copies of the real federate runtime, each with
// the reactors of a program that belong to it (../rx/rx.c), as threads under the virtual scheduler (vt.c) and on the
// virtual network (net.c). The oracle is in vlib/fed.py.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include "../rx/vt.h"
#include "../rx/fx.h"
#include "../net/net.h"

int rti_main(int argc, const char* argv[]);
#define FEDS(F) F(0) F(1) F(2) F(3) F(4) F(5)
#define DECL(k) int fed_entry_##k(int fed, FILE* in, int argc, const char** argv);
FEDS(DECL)
#define REF(k) fed_entry_##k,
static int (*entries[])(int, FILE*, int, const char**) = {FEDS(REF)};
#define MAXF 6
#define BAD(...) do { fprintf(stderr, __VA_ARGS__); fflush(stderr); _exit(46); } while (0)
static FILE* fin;
static int64_t rd(void) { long long v; if (fscanf(fin, "%lld", &v) != 1) BAD("input: unexpected end\n"); return v; }

static int out_fd = 1;
static char* out_buf; static size_t out_len, out_cap;
static void flush_out(void) { size_t o = 0; while (o < out_len) { ssize_t k = write(out_fd, out_buf + o, out_len - o); if (k <= 0) break; o += k; } out_len = 0; }
#define LOG(...) do { \
  if (out_cap - out_len < 600) { if (out_cap > (48u << 20)) { flush_out(); vt_die(44, "log too long"); } out_cap = out_cap * 2 + 65536; out_buf = realloc(out_buf, out_cap); } \
  out_len += snprintf(out_buf + out_len, 600, __VA_ARGS__); } while (0)
static void on_die(int code, const char* msg) { LOG("H %d %s\n", code, msg); flush_out(); net_dump(); }
void fx_log(int fed, const char* line) { LOG("%d %s", fed, line); vt_progress(); }

typedef struct { int id; int64_t at, timeout, fast, keep, workers; pthread_t th; void (*term[4])(void); int nterm; } fed_t;
static fed_t F[MAXF]; static int nF;
static __thread fed_t* my;
static const char* rti_argv[24]; static int rti_argc;
static char fid[300];
static char* text; static size_t text_len;
static int64_t base_t, horizon;
static int done_all, rti_done;

// Each copy has its own exit, socket and accept, so that the end of a federate can close what its process would have
// left open, and threads of a federate that has ended do nothing more.
#include <sys/socket.h>
static int owner[2048], dead[MAXF + 1];
static pthread_mutex_t PM = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t PC = PTHREAD_COND_INITIALIZER;
static void park(void) { pthread_mutex_lock(&PM); for (;;) pthread_cond_wait(&PC, &PM); }
static void ended(int k, int code) {
  if (dead[k]) park();
  LOG("x %d %d\n", k == MAXF ? -1 : k, code);
  flush_out();
  fflush(stdout);
  _exit(80);
}
static int own(int fd, int k) { if (fd >= 0 && fd < 2048) owner[fd] = k; return fd; }
#define OWN(k) \
  void fed_exit_##k(int code) { ended(k, code); } \
  int fed_socket_##k(int a, int b, int c) { return own(socket(a, b, c), k); } \
  int fed_accept_##k(int fd, struct sockaddr* a, socklen_t* n) { return own(accept(fd, a, n), k); }
FEDS(OWN)
OWN(6)
// The trace files of the copies are kept in memory.
#ifdef FED_TRACE
#include "trace.h"
#include "trace_types.h"
static struct { char name[64]; char* p; size_t n; } TF[16]; static int nTF;
FILE* fed_fopen(const char* name, const char* mode) {
  size_t l = strlen(name);
  if (l < 4 || strcmp(name + l - 4, ".lft")) return fopen(name, mode);
  if (nTF == 16) BAD("too many trace files\n");
  int i = nTF++;
  snprintf(TF[i].name, 64, "%s", my ? "fed" : "rti");
  if (my) snprintf(TF[i].name, 64, "%d", my->id);
  return open_memstream(&TF[i].p, &TF[i].n);
}
static void dump_traces(void) {
  for (int i = 0; i < nTF; i++) {
    char *p = TF[i].p, *e = p + TF[i].n; int64_t st; int n;
    LOG("t %s %zu\n", TF[i].name, TF[i].n);
    if (!TF[i].n) continue;
    if (TF[i].n < 12) { LOG("t %s X the header is cut off\n", TF[i].name); continue; }
    memcpy(&st, p, 8); memcpy(&n, p + 8, 4); p += 12;
    LOG("t %s S %lld %d\n", TF[i].name, (long long)st, n);
    if (n) { LOG("t %s X the header has %d objects\n", TF[i].name, n); continue; }
    while (p < e) {
      if (e - p < 4) { LOG("t %s X the file ends in the size of a block\n", TF[i].name); break; }
      memcpy(&n, p, 4); p += 4;
      if (n <= 0 || (size_t)(e - p) < n * sizeof(trace_record_nodeps_t)) { LOG("t %s X a block of %d records does not fit\n", TF[i].name, n); break; }
      LOG("t %s B %d\n", TF[i].name, n);
      for (; n; n--, p += sizeof(trace_record_nodeps_t)) {
        trace_record_nodeps_t r; memcpy(&r, p, sizeof r);
        if (r.event_type < federated) continue;
        LOG("t %s R %d %d %d %lld %lld %lld %d\n", TF[i].name, r.event_type - federated, r.src_id, r.dst_id, (long long)r.logical_time, (long long)r.microstep, (long long)r.physical_time, r.pointer || r.trigger || r.extra_delay);
      }
    }
  }
}
#else
static void dump_traces(void) {}
#endif
int fed_atexit(void (*f)(void)) { if (my && my->nterm < 4) my->term[my->nterm++] = f; return 0; }
static void* rti_thread(void* x) {
  int r = rti_main(rti_argc, rti_argv);
  rti_done = 1;
  LOG("X %d %lld\n", r, (long long)(vt_now() - base_t));
  return NULL;
}
static void* fed_thread(void* x) {
  fed_t* f = x;
  my = f;
  vt_sleep_until(vt_now() + f->at);
  char b1[40], b2[40];
  const char* av[16]; int n = 0;
  av[n++] = "fed"; av[n++] = "-i"; av[n++] = fid;
  if (f->timeout >= 0) { snprintf(b1, sizeof b1, "%lld", (long long)f->timeout); av[n++] = "-o"; av[n++] = b1; av[n++] = "nsec"; }
  if (f->keep) { av[n++] = "-k"; av[n++] = "true"; }
  if (f->fast) { av[n++] = "-f"; av[n++] = "true"; }
  if (f->workers > 0) { snprintf(b2, sizeof b2, "%lld", (long long)f->workers); av[n++] = "-w"; av[n++] = b2; }
  av[n] = NULL;
  int r = entries[f->id](f->id, fmemopen(text, text_len, "r"), n, av);
  while (f->nterm) f->term[--f->nterm]();
  dead[f->id] = 1;
  for (int i = 0; i < 2048; i++) if (owner[i] == f->id && net_is_open(i)) close(i);
  LOG("Z %d %d %lld\n", f->id, r, (long long)(vt_now() - base_t));
  return NULL;
}
static void* watch(void* x) {
  while (vt_now() < horizon && !done_all) vt_sleep_until(vt_now() + 10000000000LL);
  if (!done_all) vt_die(47, "STUCK: the federation has not ended");
  return NULL;
}
static int run_program(void) {
  vt_config_t c = {0};
  c.seed = rd(); c.policy = rd(); c.sync_period = rd(); c.mem_period = rd(); c.pct_points = rd(); c.tick = rd(); c.spurious = rd();
  c.start = 1600000000000000000LL; base_t = c.start;
  net_cfg.frag = rd(); net_cfg.shortw = rd(); net_cfg.intr = rd(); net_cfg.lat = rd(); net_cfg.stall = rd(); net_cfg.udp_loss = rd(); net_cfg.udp_dup = rd();
  vt_on_die = on_die;
  static char args[24][64];
  int na = rd();
  rti_argv[rti_argc++] = "RTI";
  for (int i = 0; i < na; i++) { if (fscanf(fin, "%63s", args[i]) != 1) BAD("args\n"); rti_argv[rti_argc++] = args[i]; }
  if (fscanf(fin, "%299s", fid) != 1) BAD("fid\n");
  horizon = base_t + rd();
  nF = rd();
  for (int i = 0; i < nF; i++) { F[i].id = i; F[i].at = rd(); F[i].timeout = rd(); F[i].fast = rd(); F[i].keep = rd(); F[i].workers = rd(); }
  static char rest[1 << 22];
  text = rest; text_len = fread(rest, 1, sizeof rest, fin);
  for (int i = 0; i < 2048; i++) owner[i] = -1;
  vt_init(&c);
  pthread_t r, w;
  pthread_create(&r, NULL, rti_thread, NULL);
  pthread_create(&w, NULL, watch, NULL);
  vt_sleep_until(vt_now() + 1000000);
  for (int i = 0; i < nF; i++) pthread_create(&F[i].th, NULL, fed_thread, &F[i]);
  for (int i = 0; i < nF; i++) pthread_join(F[i].th, NULL);
  LOG("d\n");
  pthread_join(r, NULL);
  done_all = 1;
  dump_traces();
  LOG("E\n"); flush_out();
  fflush(stdout);
  _exit(0);
}
static void readn(char* p, size_t n) { size_t o = 0; while (o < n) { ssize_t k = read(0, p + o, n - o); if (k <= 0) _exit(0); o += k; } }
static void on_prof(int s) { _exit(124); }
int main(int argc, char** argv) {
  if (!getenv("RX_NOASLR")) { // the same addresses in every run
    int old = personality(0xffffffff);
    setenv("RX_NOASLR", "1", 1);
    if (old != -1 && !(old & ADDR_NO_RANDOMIZE) && personality(old | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  if (argc > 1) { fin = fopen(argv[1], "r"); if (!fin) BAD("cannot open %s\n", argv[1]); out_fd = dup(1); dup2(2, 1); return run_program(); }
  static char errbuf[6001], buf[1 << 22], obuf[8192];
  setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
  for (;;) {
    char hd[17]; readn(hd, 16); hd[16] = 0;
    size_t n = strtoul(hd, NULL, 10);
    if (n >= sizeof buf) BAD("program too long\n");
    readn(buf, n); buf[n] = 0;
    char tmpl[] = "/tmp/rxerr.XXXXXX";
    int efd = mkstemp(tmpl); unlink(tmpl);
    pid_t pid = fork();
    if (pid == 0) {
      out_fd = dup(1); dup2(efd, 1); dup2(efd, 2); close(efd);
      int nul = open("/dev/null", 0); dup2(nul, 0);
      struct itimerval it = {{6, 0}, {6, 0}};
      signal(SIGPROF, on_prof);
      setitimer(ITIMER_PROF, &it, NULL);
      alarm(40);
      fin = fmemopen(buf, n, "r");
      exit(run_program());
    }
    int st = 0; struct rusage ru;
    wait4(pid, &st, 0, &ru);
    int code = WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st), el = 0;
    off_t sz = lseek(efd, 0, SEEK_END); off_t from = sz > 6000 ? sz - 6000 : 0;
    if (code) { el = pread(efd, errbuf, 6000, from); if (el < 0) el = 0; }
    close(efd);
    printf("\n@@END %d %d\n", code, el); fwrite(errbuf, 1, el, stdout); fflush(stdout);
  }
}
