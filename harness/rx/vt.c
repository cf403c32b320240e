// Controlled concurrency: every thread of the program under test runs one at a time, and control is handed over
// only at synchronisation operations (pthread calls, clock readings, sleeps) and, in builds instrumented with
// -fsanitize=thread, at memory accesses. All choices come from one seeded generator, so a run is a deterministic
// function of (program, configuration). Time is virtual: it advances when a thread says so (vt_advance), by a tick
// per clock reading, and to the earliest sleeper's deadline when every thread is blocked.
// The pthread and time functions are intercepted with the linker's --wrap.
#define _GNU_SOURCE
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include "vt.h"

#define MAXT 128
#define MAXM 4096
enum { UNUSED, RUNNABLE, BL_MUTEX, BL_COND, BL_SLEEP, BL_JOIN, DONE };

typedef struct {
  int state;
  void* what;          // mutex, condition or joined thread index
  int64_t deadline;    // for timed waits, INT64_MAX otherwise
  int timed_out, woken;
  sem_t sem;
  pthread_t real;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  int64_t prio;
  int joined, detached;
} vthread_t;

typedef struct { void* addr; int owner; int count; int kind; } vmutex_t;

static vthread_t T[MAXT];
static int nT = 0, current = 0;
static vmutex_t M[MAXM];
static vt_config_t cfg;
static int inited = 0;
static int64_t now_ns;
static uint64_t rng;
static long steps, since_progress, countdown_sync, countdown_mem, pct_next[64];
static int pct_i;
static __thread int me = -1;
static __thread int64_t read_min = INT64_MAX, read_last = INT64_MIN; // the calling thread's clock readings since vt_readings()
int vt_threads_created, vt_threads_joined, vt_switches;
volatile int vt_quiet = 0;
int64_t (*vt_clock_hook)(int64_t raw) = 0;
void (*vt_on_die)(int, const char*) = 0;

int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_join(pthread_t, void**);

uint64_t vt_rand(void) {
  rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
  return rng * 0x2545F4914F6CDD1DULL >> 11;
}
static long rnd_period(int p) { return p <= 1 ? 1 : 1 + (long)(vt_rand() % (2 * (uint64_t)p - 1)); }

void vt_die(int code, const char* msg) {
  if (vt_on_die) vt_on_die(code, msg);
  fprintf(stderr, "VT: %s\n", msg);
  for (int i = 0; i < nT; i++)
    fprintf(stderr, "VT:  thread %d state %d what %p deadline %lld\n", i, T[i].state, T[i].what, (long long)T[i].deadline);
  fflush(stderr);
  _exit(code);
}

static int new_thread(void) {
  if (nT >= MAXT) vt_die(44, "too many threads");
  int i = nT++;
  memset(&T[i], 0, sizeof T[i]);
  T[i].state = RUNNABLE;
  T[i].deadline = INT64_MAX;
  T[i].prio = (int64_t)(vt_rand() % 1000000) + 1000;
  sem_init(&T[i].sem, 0, 0);
  return i;
}

void vt_init(const vt_config_t* c) {
  cfg = *c;
  rng = cfg.seed * 0x9E3779B97F4A7C15ULL + 0x1234567;
  if (!rng) rng = 88172645463325252ULL;
  now_ns = cfg.start;
  for (int i = 0; i < 16; i++) vt_rand();
  int i = new_thread();
  me = current = i;
  T[i].real = pthread_self();
  countdown_sync = rnd_period(cfg.sync_period);
  countdown_mem = cfg.mem_period ? rnd_period(cfg.mem_period) : 0;
  int n = cfg.pct_points; if (n > 60) n = 60;
  // change points as increments between priority changes, geometric in scale
  for (int k = 0; k < n; k++) pct_next[k] = (long)(vt_rand() % (1ULL << (4 + vt_rand() % 10)));
  for (int k = n; k < 64; k++) pct_next[k] = -1;
  inited = 1;
}
int64_t vt_now(void) { return now_ns; }
int vt_self(void) { return me; }
static int spurious_n; // spurious wake-ups since something happened; bounded, so that time can pass
void vt_progress(void) { steps = 0; spurious_n = 0; }
int vt_readings(int64_t* min, int64_t* last) {
  int any = read_min != INT64_MAX;
  *min = read_min; *last = read_last; read_min = INT64_MAX; read_last = INT64_MIN;
  return any;
}

static void expire(void) { // timed waiters whose deadline has passed become runnable
  for (int i = 0; i < nT; i++)
    if ((T[i].state == BL_COND || T[i].state == BL_SLEEP) && T[i].deadline <= now_ns) {
      T[i].state = RUNNABLE; T[i].timed_out = 1; T[i].deadline = INT64_MAX;
    }
}

static void hand_to(int t) {
  if (t == me) { current = t; return; }
  vt_switches++;
  current = t;
  sem_post(&T[t].sem);
  while (sem_wait(&T[me].sem) != 0) ;
}

static int pick(int allow_me) {
  int cand[MAXT], n = 0;
  for (int i = 0; i < nT; i++) if (T[i].state == RUNNABLE && (allow_me || i != me)) cand[n++] = i;
  if (!n) return -1;
  if (cfg.policy == 2) {
    int b = cand[0];
    for (int i = 1; i < n; i++) if (T[cand[i]].prio > T[b].prio) b = cand[i];
    return b;
  }
  if (cfg.policy == 0) {
    for (int k = 1; k <= nT; k++) for (int i = 0; i < n; i++) if (cand[i] == (me + k) % nT) return cand[i];
  }
  return cand[vt_rand() % n];
}

// The calling thread has set its own state to something blocked; returns when it is runnable and chosen.
static void block(void) {
  for (;;) {
    expire();
    if (cfg.spurious && spurious_n < 40 && vt_rand() % cfg.spurious == 0 && ++spurious_n)
      for (int i = 0; i < nT; i++) if (T[i].state == BL_COND && vt_rand() % 4 == 0) {
        T[i].state = RUNNABLE; T[i].woken = 1; T[i].deadline = INT64_MAX;
      }
    int t = pick(1);
    if (t >= 0) {
      since_progress = 0;
      hand_to(t);
      // resumed: we are current
      if (T[me].state == RUNNABLE) return;
      continue;
    }
    int64_t best = INT64_MAX;
    for (int i = 0; i < nT; i++)
      if ((T[i].state == BL_COND || T[i].state == BL_SLEEP) && T[i].deadline < best) best = T[i].deadline;
    if (best == INT64_MAX) vt_die(42, "DEADLOCK: every thread is blocked and none is waiting for time to pass");
    if (best > now_ns) { now_ns = best; steps = 0; spurious_n = 0; }
  }
}

static void yield_to_other(void) {
  expire();
  int t = pick(1);
  if (t >= 0 && t != me) hand_to(t);
}

static void sync_point(void) {
  if (!inited || me < 0 || vt_quiet) return;
  if (++steps > 4000000) vt_die(43, "LIVELOCK: no virtual time has passed for very many operations");
  if (++since_progress > 20000) { // fairness: do not let one thread spin forever
    since_progress = 0;
    T[me].prio = -(int64_t)(vt_rand() % 1000000);
    int t = pick(0);
    expire();
    if (t >= 0) hand_to(t);
    return;
  }
  if (cfg.policy == 1) {
    if (--countdown_sync <= 0) { countdown_sync = rnd_period(cfg.sync_period); yield_to_other(); }
  } else if (cfg.policy == 2) {
    if (pct_next[pct_i] >= 0 && pct_next[pct_i]-- == 0) { pct_i++; T[me].prio = 500 - pct_i; }
    yield_to_other();
  }
}
void vt_yield(void) { sync_point(); }
void vt_mem(void) {
  if (!cfg.mem_period || !inited || me < 0 || vt_quiet) return;
  if (--countdown_mem <= 0) {
    countdown_mem = rnd_period(cfg.mem_period);
    if (cfg.policy == 2) {
      if (pct_next[pct_i] >= 0 && pct_next[pct_i]-- == 0) { pct_i++; T[me].prio = 500 - pct_i; }
    }
    if (++steps > 4000000) vt_die(43, "LIVELOCK: no virtual time has passed for very many operations");
    yield_to_other();
  }
}
void vt_advance(int64_t ns) { if (ns > 0) { now_ns += ns; steps = 0; expire(); } }
void vt_sleep_until(int64_t t) {
  sync_point();
  if (t <= now_ns) return;
  if (t > INT64_MAX - 4000000000000000000LL) t = INT64_MAX;
  T[me].state = BL_SLEEP; T[me].deadline = t; T[me].timed_out = 0;
  block();
}

// ---------------------------------------------------------------- mutexes
static vmutex_t* mtx(void* a) {
  size_t h = ((size_t)a >> 3) * 0x9E3779B97F4A7C15ULL % MAXM;
  for (int k = 0; k < MAXM; k++) {
    vmutex_t* m = &M[(h + k) % MAXM];
    if (m->addr == a) return m;
    if (!m->addr) { m->addr = a; m->owner = -1; m->count = 0; m->kind = ((pthread_mutex_t*)a)->__data.__kind & 3; return m; }
  }
  vt_die(44, "mutex table full");
  return 0;
}
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  int kind = PTHREAD_MUTEX_DEFAULT;
  if (a) pthread_mutexattr_gettype(a, &kind);
  vmutex_t* v = mtx(m);
  if (v->owner >= 0 && v->owner != me) { v->owner = -1; v->count = 0; vt_die(45, "a mutex is initialised while another thread holds it"); }
  v->owner = -1; v->count = 0; v->kind = kind;
  memset(m, 0, sizeof *m);
  return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) { vmutex_t* v = mtx(m); v->owner = -1; v->count = 0; return 0; }
static int acquire(pthread_mutex_t* m) {
  vmutex_t* v = mtx(m);
  if (v->owner == me) {
    if (v->kind == PTHREAD_MUTEX_RECURSIVE) { v->count++; return 0; }
    if (v->kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    T[me].state = BL_MUTEX; T[me].what = (void*)1; T[me].deadline = INT64_MAX; block(); // self-deadlock
  }
  while (v->owner >= 0) {
    T[me].state = BL_MUTEX; T[me].what = m; T[me].deadline = INT64_MAX;
    block();
  }
  v->owner = me; v->count = 1;
  return 0;
}
static int release(pthread_mutex_t* m) {
  vmutex_t* v = mtx(m);
  if (v->owner != me) return EPERM;
  if (--v->count > 0) return 0;
  v->owner = -1;
  for (int i = 0; i < nT; i++) if (T[i].state == BL_MUTEX && T[i].what == m) T[i].state = RUNNABLE;
  return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!inited) return 0; sync_point(); return acquire(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  sync_point();
  vmutex_t* v = mtx(m);
  if (v->owner >= 0 && !(v->owner == me && v->kind == PTHREAD_MUTEX_RECURSIVE)) return EBUSY;
  return acquire(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!inited) return 0; int r = release(m); sync_point(); return r; }

// ---------------------------------------------------------------- condition variables
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { (void)a; memset(c, 0, sizeof *c); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t* c) { (void)c; return 0; }
#define NO_DEADLINE (INT64_MAX - 4000000000000000000LL) // a wait for longer than a century is a wait without end
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
  sync_point();
  if (deadline > NO_DEADLINE) deadline = INT64_MAX;
  if (deadline <= now_ns) { // still releases and reacquires the mutex
    release(m); sync_point(); acquire(m); return ETIMEDOUT;
  }
  T[me].timed_out = 0; T[me].woken = 0;
  T[me].state = BL_COND; T[me].what = c; T[me].deadline = deadline;
  release(m);
  block();
  int r = T[me].timed_out && !T[me].woken ? ETIMEDOUT : 0;
  acquire(m);
  return r;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cwait(c, m, INT64_MAX); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  int64_t d = ts->tv_sec >= 9223372036LL ? INT64_MAX - 1 : (int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec;
  return cwait(c, m, d);
}
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  (void)k; return __wrap_pthread_cond_timedwait(c, m, ts);
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
  int w[MAXT], n = 0;
  for (int i = 0; i < nT; i++) if (T[i].state == BL_COND && T[i].what == c) w[n++] = i;
  if (n) { int i = w[n == 1 ? 0 : vt_rand() % n]; T[i].state = RUNNABLE; T[i].woken = 1; T[i].deadline = INT64_MAX; }
  sync_point();
  return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
  for (int i = 0; i < nT; i++)
    if (T[i].state == BL_COND && T[i].what == c) { T[i].state = RUNNABLE; T[i].woken = 1; T[i].deadline = INT64_MAX; }
  sync_point();
  return 0;
}

// ---------------------------------------------------------------- threads
static void finish(int i) {
  T[i].state = DONE;
  for (int k = 0; k < nT; k++) if (T[k].state == BL_JOIN && T[k].what == (void*)(intptr_t)i) T[k].state = RUNNABLE;
  // hand over without waiting
  for (;;) {
    expire();
    int t = pick(0);
    if (t >= 0) { current = t; vt_switches++; sem_post(&T[t].sem); return; }
    int64_t best = INT64_MAX;
    for (int k = 0; k < nT; k++)
      if ((T[k].state == BL_COND || T[k].state == BL_SLEEP) && T[k].deadline < best) best = T[k].deadline;
    if (best == INT64_MAX) vt_die(42, "DEADLOCK: every remaining thread is blocked and none is waiting for time to pass");
    if (best > now_ns) { now_ns = best; steps = 0; spurious_n = 0; }
  }
}
static void* trampoline(void* p) {
  int i = (int)(intptr_t)p;
  me = i;
  while (sem_wait(&T[i].sem) != 0) ;
  T[i].ret = T[i].fn(T[i].arg);
  finish(i);
  return T[i].ret;
}
int __wrap_pthread_create(pthread_t* th, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  (void)a;
  if (!inited) return __real_pthread_create(th, a, fn, arg);
  int i = new_thread();
  T[i].fn = fn; T[i].arg = arg;
  int r = __real_pthread_create(&T[i].real, NULL, trampoline, (void*)(intptr_t)i);
  if (r) vt_die(44, "pthread_create failed");
  *th = T[i].real;
  vt_threads_created++;
  sync_point();
  return 0;
}
int __wrap_pthread_join(pthread_t th, void** ret) {
  sync_point();
  int i;
  for (i = 0; i < nT; i++) if (i != me && !T[i].joined && pthread_equal(T[i].real, th)) break;
  if (i == nT) return ESRCH;
  while (T[i].state != DONE) { T[me].state = BL_JOIN; T[me].what = (void*)(intptr_t)i; T[me].deadline = INT64_MAX; block(); }
  T[i].joined = 1;
  vt_threads_joined++;
  if (ret) *ret = T[i].ret;
  return __real_pthread_join(th, NULL);
}
int __wrap_pthread_detach(pthread_t th) { (void)th; return 0; }
int __wrap_sched_yield(void) {
  if (!inited) return 0;
  T[me].prio -= 1; since_progress += 10;
  expire(); int t = pick(0); if (t >= 0) hand_to(t);
  return 0;
}

// ---------------------------------------------------------------- time
int __wrap_clock_gettime(clockid_t k, struct timespec* ts) {
  (void)k;
  sync_point();
  now_ns += cfg.tick;
  if (now_ns < read_min) read_min = now_ns;
  read_last = now_ns;
  int64_t v = vt_clock_hook ? vt_clock_hook(now_ns) : now_ns;
  ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL;
  if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000LL; ts->tv_sec--; }
  return 0;
}
int __wrap_nanosleep(const struct timespec* d, struct timespec* rem) {
  if (d->tv_sec < 0 || d->tv_nsec < 0 || d->tv_nsec > 999999999L) { errno = EINVAL; return -1; }
  int64_t n = d->tv_sec > 9000000000LL - now_ns / 1000000000LL ? INT64_MAX - 1 : now_ns + (int64_t)d->tv_sec * 1000000000LL + d->tv_nsec;
  if (rem) rem->tv_sec = rem->tv_nsec = 0;
  if (n == INT64_MAX - 1) n = INT64_MAX - 2;
  vt_sleep_until(n);
  return 0;
}
int __wrap_clock_nanosleep(clockid_t k, int flags, const struct timespec* d, struct timespec* rem) {
  (void)k;
  if (!(flags & 1)) return __wrap_nanosleep(d, rem) ? errno : 0;
  vt_sleep_until((int64_t)d->tv_sec * 1000000000LL + d->tv_nsec);
  return 0;
}
int __wrap_usleep(unsigned us) { vt_sleep_until(now_ns + (int64_t)us * 1000); return 0; }
