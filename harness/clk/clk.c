// Readers of the physical clock as coroutines: every instrumented memory access of the runtime is a point where another reader may run.
// Line: start nthreads { nops {op arg}* }* nraw raw* nsched choice*
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <ucontext.h>
#include <unistd.h>
#include "clock.h"
#include "tag.h"
#include "clock-sync.h"
#include "low_level_platform.h"
#include "vt.h"

#define MAXT 6
static int64_t* A;
static size_t nA, pA;
static int64_t arg(void) {
  if (pA >= nA) _exit(77);
  return A[pA++];
}
static int64_t *raw, *sched;
static size_t nraw, praw, nsched, psched;
static ucontext_t main_ctx, ctx[MAXT];
static char* stacks[MAXT];
static int nthreads, cur = -1, done[MAXT], seq;
static int64_t* ops[MAXT];
static int nops[MAXT];
extern instant_t start_time;

static void pick(void) {
  int live[MAXT], n = 0;
  for (int i = 0; i < nthreads; i++)
    if (!done[i]) live[n++] = i;
  int from = cur;
  if (n == 0) {
    cur = -1;
    setcontext(&main_ctx);
  }
  int to;
  if (psched < nsched) {
    int64_t c = sched[psched++];
    to = c == 0 && from >= 0 && !done[from] ? from : live[c % n];
  } else
    to = from >= 0 && !done[from] ? from : live[0];
  if (to == from) return;
  cur = to;
  if (from >= 0)
    swapcontext(&ctx[from], &ctx[to]);
  else
    setcontext(&ctx[to]);
}
void vt_mem(void) {
  if (cur >= 0) pick();
}
int __real__lf_clock_gettime(instant_t* t);
static int fail_next;
int __wrap__lf_clock_gettime(instant_t* t) {
  if (cur < 0) return __real__lf_clock_gettime(t);
  if (fail_next == cur + 1) {
    fail_next = 0;
    printf("F %d ", cur);
    return -1;
  }
  int64_t v = nraw ? raw[praw < nraw ? praw : nraw - 1] : 0;
  praw++;
  *t = v;
  printf("R %d %lld ", cur, (long long)v);
  return 0;
}
int __wrap__lf_cond_timedwait(lf_cond_t* c, instant_t t) {
  (void)c;
  printf("W %d %lld ", cur, (long long)t);
  return 0;
}
static void body(int me) {
  for (int i = 0; i < nops[me]; i++) {
    int64_t op = ops[me][2 * i], a = ops[me][2 * i + 1];
    vt_mem();
    if (op == 0 || op == 1) {
      printf("S %d ", me);
      int64_t v = op == 0 ? lf_time_physical() : lf_time_physical_elapsed() + start_time;
      printf("E %d %lld ", me, (long long)v);
    } else if (op == 2) {
      printf("B %d %lld ", me, (long long)a);
      clock_sync_set_constant_bias(a);
      printf("b %d ", me);
    } else if (op == 3) {
      instant_t t = 0;
      fail_next = me + 1;
      int saved = cur;
      cur = -1;   // no preemption: the failing call is one step
      cur = saved;
      int64_t ns = nsched;
      nsched = 0;
      int r = lf_clock_gettime(&t);
      nsched = ns;
      fail_next = 0;
      printf("X %d %d ", me, r);
    } else if (op == 4) {
      lf_cond_t c;
      memset(&c, 0, sizeof c);
      printf("Q %d %lld ", me, (long long)a);
      lf_clock_cond_timedwait(&c, a);
    }
  }
  done[me] = 1;
  pick();
}
int main(void) {
  char* line = NULL;
  size_t cap = 0, capA = 0;
  for (int i = 0; i < MAXT; i++) stacks[i] = malloc(1 << 17);
  while (getline(&line, &cap, stdin) > 0) {
    char* s = line;
    nA = pA = 0;
    for (;;) {
      while (*s == ' ') s++;
      if (*s == '\n' || *s == 0) break;
      if (nA == capA) A = realloc(A, (capA = capA * 2 + 1024) * sizeof(int64_t));
      A[nA++] = strtoll(s, &s, 10);
    }
    start_time = arg();
    nthreads = (int)arg();
    for (int i = 0; i < nthreads; i++) {
      nops[i] = (int)arg();
      ops[i] = A + pA;
      pA += 2 * nops[i];
      done[i] = 0;
    }
    nraw = (size_t)arg();
    raw = A + pA;
    pA += nraw;
    nsched = (size_t)arg();
    sched = A + pA;
    praw = psched = 0;
    fail_next = 0;
    clock_sync_set_constant_bias(0);
    fflush(stdout);
    // One child per case: the last reading is private to the clock and must start fresh.
    int pid = fork();
    if (pid == 0) {
      for (int i = 0; i < nthreads; i++) {
        getcontext(&ctx[i]);
        ctx[i].uc_stack.ss_sp = stacks[i];
        ctx[i].uc_stack.ss_size = 1 << 17;
        ctx[i].uc_link = &main_ctx;
        makecontext(&ctx[i], (void (*)(void))body, 1, i);
      }
      volatile int first = 1;
      getcontext(&main_ctx);
      if (first) {
        first = 0;
        cur = -1;
        pick();
      }
      printf("\n");
      fflush(stdout);
      _exit(0);
    }
    int st = 0;
    extern pid_t waitpid(pid_t, int*, int);
    waitpid(pid, &st, 0);
    if (st) {
      printf("DIED %d\n", st);
      fflush(stdout);
    }
  }
  return 0;
}
