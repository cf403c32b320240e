// Histories of tracepoints by several threads against the default trace module, on the controlled scheduler.
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include "low_level_platform.h"
#include "trace.h"
#include "vt.h"
static char* s;
static long long rd(void) { return strtoll(s, &s, 10); }
static FILE* ans;
typedef struct { int op; long long n; } op_t;
typedef struct { int id, managed, nops; op_t* ops; long long seq; } th_t;
static th_t th[16];
static uint64_t mix(uint64_t x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; return x ^ x >> 31; }
static int nev, nobj, wide, base;
static trace_record_nodeps_t event(int id, long long seq) {
  uint64_t h = mix((uint64_t)id << 40 | (uint64_t)seq);
  trace_record_nodeps_t r;
  memset(&r, 0, sizeof r);
  r.event_type = nev >= 1000 ? nev - 1000 : (int)(h % nev);
  r.pointer = (void*)(0x1000 + (h >> 8) % (nobj + 2));
  r.src_id = id + base;
  r.dst_id = (h >> 16) % 64;
  r.logical_time = (int64_t)((h >> 20) & 0xfffffff) * (wide ? 12345678901LL : 1);
  r.microstep = (h >> 48) & 0x7fff;
  r.physical_time = (int64_t)mix(h) >> (wide ? 2 : 30);
  r.trigger = (void*)(0x2000 + (h >> 12) % (nobj + 2));
  r.extra_delay = seq * (wide ? 7777777777LL : 1);
  return r;
}
static int reg;
static int slow, writes;
size_t __real_fwrite(const void*, size_t, size_t, FILE*);
size_t __wrap_fwrite(const void* p, size_t a, size_t b, FILE* f) { // writing takes time, during which other threads come to write, too
  int mine = ++writes;
  for (int i = 0; i < slow && writes == mine; i++) vt_yield();
  return __real_fwrite(p, a, b, f);
}
static void run_ops(th_t* t) {
  for (int i = 0; i < t->nops; i++) {
    op_t* o = &t->ops[i];
    if (o->op == 0) for (long long k = 0; k < o->n; k++) { trace_record_nodeps_t r = event(t->id, t->seq++); lf_tracing_tracepoint(t->id, &r); memset(&r, 0x5a, sizeof r); }
    else if (o->op == 1) for (long long k = 0; k < o->n; k++) {
      vt_quiet++; int x = reg++; vt_quiet--;
      char b[64];
      snprintf(b, sizeof b, "object %d of %d%s", x, t->id, x % 7 == 3 ? " with a long name, a comma" : "");
      if (x % 11 == 5) b[0] = 0;
      object_description_t d = {(void*)(intptr_t)(0x1000 + x), (void*)(intptr_t)(0x2000 + x), (_lf_trace_object_t)(x % 3), strdup(b)};
      lf_tracing_register_trace_event(d);
      vt_quiet++; fprintf(ans, "g %d %d ", t->id, x); vt_quiet--;
    } else if (o->op == 2) vt_yield();
    else if (o->op == 3) lf_tracing_set_start_time(o->n);
  }
}
static void* body(void* a) {
  th_t* t = a;
  if (t->managed) initialize_lf_thread_id();
  run_ops(t);
  return NULL;
}
static void on_die(int code, const char* msg) { fprintf(ans, " died %d %s\n", code, msg); fflush(ans); _exit(0); }
static int one(void) {
  vt_config_t c = {0};
  c.seed = rd(); c.policy = rd(); c.sync_period = rd(); c.mem_period = rd(); c.pct_points = rd();
  c.start = 1000000000;
  nev = rd(); nobj = rd(); wide = rd(); base = rd(); slow = rd();
  int fail = rd(), buffers = rd(), id = rd(), len = rd(), n = rd();
  for (int i = 0; i < n; i++) {
    th[i].id = i; th[i].managed = rd(); th[i].nops = rd();
    th[i].ops = calloc(th[i].nops + 1, sizeof(op_t));
    for (int k = 0; k < th[i].nops; k++) { th[i].ops[k].op = rd(); th[i].ops[k].n = rd(); }
  }
  vt_on_die = on_die;
  vt_init(&c);
  initialize_lf_thread_id();
  char name[200];
  memset(name, 'x', len); name[len] = 0;
  lf_tracing_global_init(fail ? "no/such/directory" : id < 0 ? "rti" : name, NULL, id, buffers);
  run_ops(&th[0]); // before there are other threads
  lf_thread_t t[16];
  for (int i = 1; i < n; i++) if (lf_thread_create(&t[i], body, &th[i])) { fprintf(ans, "nothread "); }
  for (int i = 1; i < n; i++) { void* r; lf_thread_join(t[i], &r); }
  th[0].nops = rd();
  th[0].ops = calloc(th[0].nops + 1, sizeof(op_t));
  for (int k = 0; k < th[0].nops; k++) { th[0].ops[k].op = rd(); th[0].ops[k].n = rd(); }
  run_ops(&th[0]); // and after they have ended
  lf_tracing_global_shutdown();
  fprintf(ans, "end\n");
  fflush(ans);
  return 0;
}
int main(int argc, char** argv) { // the argument: a scratch directory, in which the trace file is written
  if (argc > 1 && chdir(argv[1])) return 3;
  int fd = dup(1);
  ans = fdopen(fd, "w");
  freopen("/dev/null", "w", stdout);
  static char obuf[1 << 16];
  setvbuf(ans, obuf, _IOFBF, sizeof obuf);
  char* line = NULL;
  size_t cap = 0;
  while (getline(&line, &cap, stdin) > 0) {
    s = line;
    int st = 0;
    pid_t p = fork();
    if (p == 0) { alarm(30); one(); _exit(0); }
    waitpid(p, &st, 0);
    if (st) { fprintf(ans, " died %d\n", st); fflush(ans); }
  }
  return 0;
}
