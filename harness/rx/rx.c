// Executes a generated reactor program (a list of integers) on the real runtime, playing the part of the code that the
// Lingua Franca compiler would generate for it, and prints a trace of everything its reactions observed.
#define _GNU_SOURCE
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <errno.h>
#include <sched.h>
#include <fcntl.h>
#include <stddef.h>
#include <limits.h>
#include "platform.h"
#include "low_level_platform.h"
#include "tag.h"
#include "clock.h"
#include "reactor.h"
#include "reactor_common.h"
#include "environment.h"
#include "port.h"
#include "vector.h"
#include "lf_token.h"
#include "api/schedule.h"
#include "util.h"
#include "tracepoint.h"
#ifdef MODAL_REACTORS
#include "modes.h"
#endif
#if !defined(LF_SINGLE_THREADED)
#include "scheduler_instance.h"
#include "scheduler.h"
#include "watchdog.h"
#endif
#include "api/reaction_macros.h"
#ifdef RX_FED
#include "federate.h"
#include "net_common.h"
#include "net_util.h"
#include "fx.h"
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(RX_FED) || defined(RX_PY)
#define NO_ACCOUNTING 1
#endif
#include "vt.h"

extern bool fast;
extern instant_t start_time;
extern unsigned int _lf_number_of_workers;
int lf_reactor_c_main(int argc, const char* argv[]);

#define PMAX 48
#ifdef RX_PY
#define PYTHON 1
#else
#define PYTHON 0
#endif
// ---------------------------------------------------------------- program
typedef struct { token_type_t type; lf_token_t* token; size_t length; bool is_present; lf_port_internal_t _base; int64_t value; } iport_t;
typedef struct { token_type_t type; lf_token_t* token; size_t length; bool is_present; lf_port_internal_t _base; int64_t* value; } tport_t;
typedef struct { token_type_t type; lf_token_t* token; size_t length; bool is_present; lf_action_internal_t _b; } dummy_t;
typedef struct { lf_action_base_t base; int64_t value; } act_t;

typedef struct { int op; int64_t gm, ge, a[6]; } op_t;
typedef struct { int64_t kind, id; } ref_t; // reads: 0 input, 1 action, 2 input iterated with the multiport iterator
typedef struct rreactor rreactor_t;
typedef struct {
  int reactor, number, level, mode, last_enabling, has_handler;
  int64_t deadline, prio_deadline;
  int startup, shutdown, reset;
  int ntrig, nread, neff, nbody, nhand;
  ref_t *trig, *read; // trigger kinds: 0 input, 1 action, 2 timer
  int* eff;
  op_t *body, *hand;
  reaction_t* r;
} rreaction_t;
struct rself { self_base_t base; int idx; int64_t state, wide[2]; }; // wide follows state, as a check of resets
struct rreactor { struct rself* self; int parent_mode, nmodes, nreactions, env; int* reactions; int* modes; int wd[64], nwd; };
typedef struct { int reactor, physical, ptype, mode; int64_t min_delay, spacing; int policy; trigger_t trig; act_t act; } raction_t;
typedef struct { int reactor, mode; int64_t offset, period; trigger_t trig; } rtimer_t;
typedef struct { int reactor, ptype, width; tport_t** ch; trigger_t*** trigs; int* ntrigs; } rout_t;
typedef struct { int reactor, ptype, width, mut, sparse; int *so, *sc; tport_t** port; trigger_t trig; lf_sparse_io_record_t* rec; } rin_t;
typedef struct { int reactor; } rmode_t;
typedef struct { int reactor; int64_t min; int nbody; op_t* body;
#if !defined(LF_SINGLE_THREADED)
  watchdog_t wd;
#endif
} rwd_t;
typedef struct { int64_t t; int kind, action; int64_t delay, v; } inj_t;
typedef struct { int n; inj_t* e; pthread_t th; } rinj_t;

static rreactor_t* R; static int nR;
static raction_t* A; static int nA;
static rtimer_t* TM; static int nTM;
static rout_t* O; static int nO;
static rin_t* I; static int nI;
static rreaction_t* X; static int nX;
static rmode_t* MD; static int nMD;
static rwd_t* W; static int nW;
static rinj_t* J; static int nJ;
static int nRST, *rst_mode, *rst_reactor;
#ifdef MODAL_REACTORS
static reactor_mode_t* MODE;
#endif
#define MAXENV 8
static environment_t ENV[MAXENV];
static int nENV = 1;
static int64_t state0 = 7;
#define SET_STATE(p, v) do { (p)[0] = (v); (p)[1] = ~(p)[0]; (p)[2] = (p)[0] ^ 0x5555; } while (0)
#ifdef RX_FED
// Connections between federates: the message is scheduled on an action of a receiver reactor in the destination federate.
typedef struct { int action, src, dst, port, zdc, phys; int64_t delay, staa; } rnet_t;
static rnet_t* N; static int nN;
typedef struct { int nup, ndown, up[16], down[16]; int64_t upd[16], physmin, sta; } rnb_t;
#ifdef FEDERATED_DECENTRALIZED
#define P2P(n) 1
#else
#define P2P(n) ((n).phys)
#endif
static rnb_t NB[16];
#define MINE(r) (R[r].env == 0)
#else
#define MINE(r) 1
#endif
static FILE* fin;
static char* out_buf; static size_t out_len, out_cap;
static int64_t seqno;
static int opt_trace_limit = 5000;

#define BAD(...) do { fprintf(stderr, __VA_ARGS__); fflush(stderr); _exit(46); } while (0)
static int64_t rd(void) { long long v; if (fscanf(fin, "%lld", &v) != 1) BAD("program file: unexpected end\n"); return v; }
static void rdops(int* n, op_t** o) {
  *n = rd(); *o = calloc(*n + 1, sizeof(op_t));
  for (int i = 0; i < *n; i++) {
    (*o)[i].op = rd(); (*o)[i].gm = rd(); (*o)[i].ge = rd();
    for (int k = 0; k < 6; k++) (*o)[i].a[k] = rd();
  }
}

// ---------------------------------------------------------------- trace
static int out_fd = 1;
static void flush_out(void) { size_t o = 0; while (o < out_len) { ssize_t k = write(out_fd, out_buf + o, out_len - o); if (k <= 0) break; o += k; } out_len = 0; }
#ifdef RX_FED
#define TR(...) do { char tr_[512]; snprintf(tr_, sizeof tr_, __VA_ARGS__); fx_log(FED, tr_); } while (0)
static int FED;
#else
#define TR(...) do { \
  if (out_cap - out_len < 512) { if (out_cap > (64u << 20)) { flush_out(); vt_die(44, "trace too long"); } out_cap = out_cap * 2 + 65536; out_buf = real_realloc(out_buf, out_cap); } \
  out_len += snprintf(out_buf + out_len, 512, __VA_ARGS__); } while (0)
#endif

// ---------------------------------------------------------------- memory accounting of message payloads
#ifdef NO_ACCOUNTING
#define real_realloc realloc
#define real_malloc malloc
#define real_free free
#define real_calloc calloc
#else
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
#define real_realloc __real_realloc
#define real_malloc __real_malloc
#define real_free __real_free
#define real_calloc __real_calloc
#endif
typedef struct { void* p; size_t n; int kind; int freed; int64_t born; } blk_t; // kind 1 array, 2 object
static blk_t* B; static int nB, capB;
static int* BH; static int capBH; // open addressing: pointer -> last block with it
static int live_payloads, max_live;
static const char* mem_error; static char mem_error_buf[200];
static void bh_put(void* p, int idx);
static int bh_get(void* p) {
  if (!capBH) return -1;
  for (size_t h = ((size_t)p >> 4) * 0x9E3779B97F4A7C15ULL % capBH;; h = (h + 1) % capBH) {
    if (BH[h] < 0) return -1;
    if (B[BH[h]].p == p) return BH[h];
  }
}
static void bh_grow(void) {
  int n = capBH ? capBH * 2 : 4096;
  int* old = BH; int oc = capBH;
  BH = real_malloc(n * sizeof(int)); capBH = n;
  for (int i = 0; i < n; i++) BH[i] = -1;
  for (int i = 0; i < oc; i++) if (old[i] >= 0) bh_put(B[old[i]].p, old[i]);
  if (old) real_free(old);
}
static void bh_put(void* p, int idx) {
  for (size_t h = ((size_t)p >> 4) * 0x9E3779B97F4A7C15ULL % capBH;; h = (h + 1) % capBH)
    if (BH[h] < 0 || B[BH[h]].p == p) { BH[h] = idx; return; }
}
static void memerr(const char* fmt, void* p) { if (!mem_error) { snprintf(mem_error_buf, sizeof mem_error_buf, fmt, p); mem_error = mem_error_buf; } }
static void payload_add(void* p, size_t n, int kind) {
  if (!p) return;
  int i = bh_get(p);
  if (i >= 0 && !B[i].freed) return;
  if (nB == capB) { capB = capB * 2 + 1024; B = real_realloc(B, capB * sizeof(blk_t)); }
  if (nB * 2 >= capBH) bh_grow();
  B[nB] = (blk_t){p, n, kind, 0, seqno};
  bh_put(p, nB);
  nB++;
  if (++live_payloads > max_live) max_live = live_payloads;
}
static int payload_live(void* p) { int i = bh_get(p); return i >= 0 && !B[i].freed; }
// Returns 1 if the block is a payload (which is then quarantined rather than returned to the allocator).
static int payload_free(void* p, int by_dtor) {
  int i = bh_get(p);
  if (i < 0) return 0;
  if (B[i].freed) { memerr("payload %p released twice", p); return 1; }
  if (B[i].kind == 2 && !by_dtor) memerr("object %p released without its destructor", p);
  if (B[i].kind == 1 && by_dtor) memerr("destructor called on array %p", p);
  B[i].freed = 1; live_payloads--;
#ifndef NO_ACCOUNTING
  memset(p, 0xDD, B[i].n);
#endif
  return 1;
}
static __thread int in_api; static __thread size_t api_size;
#ifndef NO_ACCOUNTING
void* __wrap_malloc(size_t n) { void* p = real_malloc(n); if (in_api && n == api_size) payload_add(p, n, 1); return p; }
void* __wrap_calloc(size_t a, size_t b) { void* p = real_calloc(a, b); if (in_api && a * b == api_size) payload_add(p, a * b, 1); return p; }
void* __wrap_realloc(void* q, size_t n) { return real_realloc(q, n); }
void __wrap_free(void* p) { if (p && payload_free(p, 0)) return; real_free(p); }
#endif
typedef struct { uint64_t magic; int64_t len; int64_t d[16]; } obj_t;
#define MAGIC 0x0B1EC7C0FFEEULL
static int n_ctor, n_dtor;
static void* obj_new(int64_t v, int len) {
  obj_t* o = malloc(sizeof *o);
  o->magic = MAGIC; o->len = len;
  for (int i = 0; i < 16; i++) o->d[i] = i < len || !i ? v + i * 3 : 0;
  payload_add(o, sizeof *o, 2);
  return o;
}
static void* obj_copy(void* v) {
  obj_t* o = v;
  if (o->magic != MAGIC) memerr("copy constructor called on a released object %p", v);
  obj_t* c = malloc(sizeof *c);
  *c = *o; n_ctor++;
  payload_add(c, sizeof *c, 2);
  return c;
}
static void obj_destroy(void* v) {
  obj_t* o = v;
  n_dtor++;
  if (o->magic != MAGIC) { memerr("destructor called on a released object %p", v); return; }
  payload_free(v, 1);
#ifdef NO_ACCOUNTING
  o->magic = 0; free(o);
#endif
}
static int64_t* arr_new(int64_t v, int len) {
  int64_t* p = malloc(8 * (len > 0 ? len : 1));
  for (int i = 0; i < len; i++) p[i] = v + i * 5;
  payload_add(p, 8 * (len > 0 ? len : 1), 1);
  return p;
}

// ---------------------------------------------------------------- hashing (mirrored by the reference interpreter)
static uint64_t mix(uint64_t h, uint64_t v) { h = (h ^ v) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29; return h; }
static uint64_t hash_value(uint64_t h, int ptype, void* value, size_t len) {
  if (!value) return mix(h, 77);
  if (ptype == 2) {
    obj_t* o = value;
    if (o->magic != MAGIC) { memerr("a reaction was given a released object %p", value); return mix(h, 666); }
    h = mix(h, o->len);
    for (int i = 0; i < 16 && i < o->len; i++) h = mix(h, o->d[i]);
    return h;
  }
  if (ptype == 3) return mix(h, (uint64_t)(int64_t) * (int*)value);
  int64_t* p = value;
#ifndef NO_ACCOUNTING
  int b = bh_get(value);
  if (b >= 0 && B[b].freed) { memerr("a reaction was given a released array %p", value); return mix(h, 667); }
  if (b < 0 && len > 0) payload_add(value, 8 * len, 1);
#endif
  h = mix(h, len);
  if (len > 4096) { memerr("a reaction was given an absurd length %p", (void*)len); return h; }
  for (size_t i = 0; i < len; i++) h = mix(h, p[i]);
  return h;
}

// ---------------------------------------------------------------- reactions
#ifdef FEDERATED
#define NOINTENT(t) ((t).intended_tag = NEVER_TAG)
#else
#define NOINTENT(t) ((void)(t))
#endif
static void exec(int xi, int kind, struct rself* self, int nops, op_t* ops);
typedef struct { tport_t tmp[PMAX]; tport_t** ch; int prepared; } view_t;

static tport_t** inview(int i, view_t* v) { // what the generated prologue makes of an input
  rin_t* in = &I[i];
  if (v->prepared) return v->ch;
  v->prepared = 1;
  v->ch = calloc(in->width, sizeof(void*));
  for (int c = 0; c < in->width; c++) {
    tport_t* p = in->port[c];
    if (in->ptype != 0 && in->mut && in->width <= PMAX) {
      v->tmp[c] = *p;
      v->ch[c] = &v->tmp[c];
      if (p->is_present) {
        v->tmp[c].length = p->token->length;
        v->tmp[c].value = p->token->value;
        lf_token_t* t = p->token;
        in_api = 1; api_size = 8 * t->length;
        if (in->ptype == 2 || api_size < 100) in_api = 0;
        v->tmp[c].token = lf_writable_copy((lf_port_base_t*)p);
        in_api = 0;
        if (v->tmp[c].token != t) v->tmp[c].value = v->tmp[c].token->value;
      } else v->tmp[c].length = 0;
    } else {
      if (in->ptype != 0) {
        if (p->is_present) { p->length = p->token->length; p->value = p->token->value; } else p->length = 0;
      }
      v->ch[c] = p;
    }
  }
  return v->ch;
}
static uint64_t hash_port(uint64_t h, int ptype, tport_t* p) {
  if (!p->is_present) return mix(h, 2);
  h = mix(h, 1);
  if (ptype == 0) return mix(h, ((iport_t*)p)->value);
  return hash_value(h, ptype, p->value, p->length);
}
static void prep_action(raction_t* a) {
  a->act.base.is_present = (bool)a->trig.status;
  a->act.base.has_value = a->trig.tmplt.token != NULL && a->trig.tmplt.token->value != NULL;
  _lf_replace_template_token((token_template_t*)&a->act, a->trig.tmplt.token);
}
static void check_token(const char* what, lf_token_t* t) {
  if (t && t->ref_count == 0) memerr("a reaction holds a token %p whose reference count is zero", t);
  (void)what;
}

static void schedule_op(raction_t* a, int kind, int64_t delay, int64_t v, lf_token_t* fwd) {
  void* act = &a->act;
  if (fwd) { lf_schedule_token(act, delay, fwd); return; }
  if (a->ptype == 0) { lf_schedule(act, delay); return; }
  if (kind == 3) { if (v & 1) lf_schedule_copy(act, delay, NULL, 0); else lf_schedule(act, delay); return; }
  if (a->ptype == 3) { in_api = 1; api_size = 4; lf_schedule_int(act, delay, (int)v); in_api = 0; return; }
  if (a->ptype == 2) {
    void* o = obj_new(v, (int)((uint64_t)v % 16));
    if (kind == 1) lf_schedule_value(act, delay, o, 1);
    else lf_schedule_token(act, delay, lf_new_token(act, o, 1));
    return;
  }
  int len = 17 + (int)((uint64_t)v % 5);
  if (kind == 0) {
    int64_t tmp[32]; for (int i = 0; i < len; i++) tmp[i] = v + i * 5;
    in_api = 1; api_size = 8 * len;
    lf_schedule_copy(act, delay, tmp, len);
    in_api = 0;
  } else if (kind == 1) lf_schedule_value(act, delay, arr_new(v, len), len);
  else lf_schedule_token(act, delay, lf_new_token(act, arr_new(v, len), len));
}

#if defined(LF_TRACE) && !defined(RX_FED)
#include "tracepoint.h"
static char *TR_EVENT = "a user event", *TR_VALUE = "a user value";
static int trace_fd = -1;
FILE* __real_fopen(const char*, const char*);
FILE* __wrap_fopen(const char* n, const char* m) { // the trace is written to a file without a name
  size_t l = strlen(n);
  if (l < 4 || strcmp(n + l - 4, ".lft")) return __real_fopen(n, m);
  FILE* f = tmpfile();
  if (f) trace_fd = dup(fileno(f));
  return f;
}
static int trace_nreg;
static void trace_register(void) {
  char b[60];
  for (int i = 0; i < nR; i++) { snprintf(b, sizeof b, "main.r%d", i); _lf_register_trace_event(R[i].self, NULL, trace_reactor, strdup(b)); trace_nreg++; }
  for (int i = 0; i < nA; i++) { snprintf(b, sizeof b, "main.a%d", i); _lf_register_trace_event(R[A[i].reactor].self, &A[i].trig, trace_trigger, strdup(b)); trace_nreg++; }
  for (int i = 0; i < nTM; i++) { snprintf(b, sizeof b, "main.t%d", i); _lf_register_trace_event(R[TM[i].reactor].self, &TM[i].trig, trace_trigger, strdup(b)); trace_nreg++; }
  register_user_trace_event(R[0].self, TR_EVENT); register_user_trace_event(R[0].self, TR_VALUE); trace_nreg += 2;
}
static int trace_object(void* p, void* t) { // a number for every registered object
  if (t) {
    for (int i = 0; i < nA; i++) if (t == &A[i].trig) return 10000 + i;
    for (int i = 0; i < nTM; i++) if (t == &TM[i].trig) return 20000 + i;
    return -9;
  }
  if (!p) return -1;
  if (p == TR_EVENT) return -2;
  if (p == TR_VALUE) return -3;
  for (int i = 0; i < nR; i++) if (p == R[i].self) return i;
  return -9;
}
static void trace_dump(void) {
  if (trace_fd < 0) { TR("X there is no trace file\n"); return; }
  lseek(trace_fd, 0, SEEK_SET);
  FILE* f = fdopen(trace_fd, "r");
  int64_t st; int n;
  if (fread(&st, 8, 1, f) != 1 || fread(&n, 4, 1, f) != 1) { TR("X the trace file is empty\n"); return; }
  if (st != start_time) TR("X the start time in the trace is %lld\n", (long long)(st - start_time));
  if (n != trace_nreg && trace_nreg <= 1024) TR("X the object table of the trace has %d entries instead of %d\n", n, trace_nreg);
  for (int i = 0; i < n; i++) {
    void *ptr, *trg; int ty, c, k = 0; char d[100];
    if (fread(&ptr, 8, 1, f) != 1 || fread(&trg, 8, 1, f) != 1 || fread(&ty, 4, 1, f) != 1) { TR("X the trace file ends in the object table\n"); return; }
    while ((c = fgetc(f)) > 0) if (k < 99) d[k++] = c;
    d[k] = 0;
    char w[100];
    int o = trace_object(ptr, trg);
    snprintf(w, sizeof w, o == -2 ? "%s" : o == -3 ? "%s" : o >= 20000 ? "main.t%d" : o >= 10000 ? "main.a%d" : "main.r%d", o == -2 ? (intptr_t)TR_EVENT : o == -3 ? (intptr_t)TR_VALUE : (intptr_t)(o % 10000));
    if (strcmp(w, d)) TR("X the object table of the trace names %s %s\n", w, d);
  }
  while (fread(&n, 4, 1, f) == 1) {
    TR("t %d\n", n);
    for (int i = 0; i < n; i++) {
      trace_record_nodeps_t r;
      if (fread(&r, sizeof r, 1, f) != 1) { TR("X the trace file ends in a block\n"); return; }
      TR("t %d %d %d %d %lld %lld %lld %d %lld\n", r.event_type, trace_object(r.pointer, NULL), r.src_id, r.dst_id, (long long)(r.logical_time - start_time), (long long)r.microstep,
         (long long)(r.physical_time - start_time), trace_object(NULL, r.trigger), (long long)r.extra_delay);
    }
  }
}
#endif
#define MAXREACTIONS_PER 40
static __thread int in_check, check_called;
static uint64_t lastD[4096];
#if !defined(LF_SINGLE_THREADED)
static void set_started(void);
#else
static void set_started(void) {}
#endif
static void count_new_tokens(void) {
#if !defined(NDEBUG)
  extern int _lf_count_payload_allocations; // lf_new_token is given memory that the runtime did not count
#endif
}
#ifdef RX_FED
extern reaction_t* port_absent_reaction[];
void lf_enqueue_port_absent_reactions(environment_t*);
static tport_t** inview(int i, view_t* v);
static void send_absent(rreaction_t* x, struct rself* self, rnet_t* n) {
  vt_yield();
  if (!I[x->read[0].id].port[0]->is_present) {
    TR("A %d %lld %u\n", (int)(n - N), (long long)(self->base.environment->current_tag.time - start_time), self->base.environment->current_tag.microstep);
    lf_send_port_absent_to_federate(self->base.environment, n->delay, n->port, n->dst);
  }
}
#endif
#ifdef RX_PY
#include "py.h"
#endif
static void exec(int xi, int kind, struct rself* self, int nops, op_t* ops) {
#ifdef RX_FED
  if (nops && ops[0].op == 33) { // the generated startup reaction of a sender: its next but one reaction reports absence
    port_absent_reaction[ops[0].a[0]] = X[xi + 2].r;
    lf_enqueue_port_absent_reactions(self->base.environment);
    return;
  }
  if (nops && ops[0].op == 31) { send_absent(&X[xi], self, &N[ops[0].a[0]]); return; }
  if (nops && ops[0].op == 32) { // the generated code for a receiver of an array turns bytes into elements
    lf_token_t* t = A[N[ops[0].a[0]].action].trig.tmplt.token;
    if (t && A[N[ops[0].a[0]].action].trig.status) { if (t->length % 8) TR("X a message of %zu bytes\n", t->length); t->length /= 8; }
  }
#endif
  environment_t* env = self->base.environment;
  rreaction_t* x = kind == 'W' ? NULL : &X[xi];
  int64_t seq = seqno++;
  vt_progress();
  tag_t tag = env->current_tag;
  int64_t et = tag.time - start_time;
  int64_t phys = vt_now() - start_time;
  if (seq > opt_trace_limit) { TR("Z\n"); flush_out(); vt_die(44, "too many reactions"); }
  if (kind != 'W' && self->base.executing_reaction != x->r && kind == 'B') {
    TR("X executing_reaction is not the reaction that executes\n");
  }
  uint64_t h = mix(kind == 'W' ? 0xABCDEF + xi : (uint64_t)xi * 2 + (kind == 'D'), 0x51ed27);
  if (kind != 'W') { h = mix(h, et); h = mix(h, tag.microstep); }
  int64_t rmin, rlast;
  int anyr = vt_readings(&rmin, &rlast);
  TR("%c %d %lld %u %lld %d %lld %d %lld %lld\n", kind, xi, (long long)et, tag.microstep, (long long)phys, vt_self(), (long long)seq,
     anyr, (long long)(anyr ? rmin - start_time : 0), (long long)(anyr ? rlast - start_time : 0));
#if defined(LF_TRACE) && !defined(RX_FED)
  if (kind != 'W') { tracepoint_user_event(self, TR_EVENT); tracepoint_user_value(self, TR_VALUE, xi); }
#endif
  if (seq == 0) set_started();
  vt_yield();
#ifdef RX_PY
  h = py_exec(xi, kind, self, nops, ops);
  { int64_t m, l; vt_readings(&m, &l); }
  TR("E %d %llu %lld %c\n", xi, (unsigned long long)h, (long long)(seqno++), kind);
  return;
#endif
  view_t* views = x ? calloc(x->nread + 1, sizeof(view_t)) : NULL;
  if (x) for (int i = 0; i < x->nread; i++) {
    if (x->read[i].kind == 1) {
      raction_t* a = &A[x->read[i].id];
      prep_action(a);
      h = mix(h, 100 + i);
      if (!a->act.base.is_present) h = mix(h, 2);
      else {
        h = mix(h, 1);
        if (a->ptype) {
          if (a->act.base.has_value) { check_token("action", a->trig.tmplt.token); h = hash_value(h, a->ptype, a->trig.tmplt.token->value, a->trig.tmplt.token->length); }
          else h = mix(h, 78);
        }
        if (a->physical) {
          int64_t val = 0;
          if (a->ptype && a->act.base.has_value && a->trig.tmplt.token->length) val = a->ptype == 3 ? *(int*)a->trig.tmplt.token->value : a->ptype == 2 ? ((obj_t*)a->trig.tmplt.token->value)->d[0] : *(int64_t*)a->trig.tmplt.token->value;
          TR("P %d %lld %u %lld %lld %d %d\n", (int)x->read[i].id, (long long)et, tag.microstep, (long long)phys, (long long)val, a->ptype ? (int)a->act.base.has_value : 0, xi);
        }
      }
    } else {
      int id = x->read[i].id;
      rin_t* in = &I[id];
      tport_t** ch = inview(id, &views[i]);
      h = mix(h, 200 + i);
      for (int c = 0; c < in->width; c++) { if (in->ptype && ch[c]->is_present) check_token("input", ch[c]->token); }
      if (x->read[i].kind == 2) {
        lf_multiport_iterator_t it = _lf_multiport_iterator_impl((lf_port_base_t**)in->port, in->width);
        int c, n = 0;
        while ((c = lf_multiport_next(&it)) >= 0) {
          h = mix(h, 300 + c);
          if (c < in->width) h = hash_port(h, in->ptype, ch[c]);
          if (++n > 4 * in->width + 8) { h = mix(h, 999); break; }
        }
      } else for (int c = 0; c < in->width; c++) h = hash_port(h, in->ptype, ch[c]);
    }
    vt_yield();
  }
  h = mix(h, self->state);
  if (self->wide[0] != ~self->state || self->wide[1] != (self->state ^ 0x5555)) h = mix(h, 99);
  if (x) for (int i = 0; i < x->nread; i++) // again: what was read must not change while the reaction runs
    if (x->read[i].kind == 1 && A[x->read[i].id].act.base.is_present != (bool)A[x->read[i].id].trig.status) h = mix(h, 555);
  for (int k = 0; k < nops; k++) {
    op_t* o = &ops[k];
    if ((int64_t)((h >> 8) % (uint64_t)o->gm) != o->ge) continue;
    int64_t* a = o->a;
    uint64_t v = mix(h, 1000 + k);
    int64_t sv = (int64_t)(v >> 3);
    switch (o->op) {
    case 1: { // out ch: set a primitive, or a heap value
      rout_t* ou = &O[a[0]];
      if (ou->ptype == 0) { iport_t* p = (iport_t*)ou->ch[a[1]]; lf_set(p, sv); }
      else if (ou->ptype == 1) { tport_t* p = ou->ch[a[1]]; int64_t* q = arr_new(sv, 1); lf_set(p, q); }
      else { tport_t* p = ou->ch[a[1]]; int64_t* q = obj_new(sv, (int)((uint64_t)sv % 16)); lf_set(p, q); }
      break; }
    case 2: { // out ch len: set an array
      tport_t* p = O[a[0]].ch[a[1]];
      int64_t* q = arr_new(sv, a[2]);
      lf_set_array(p, q, a[2]);
      break; }
    case 3: { // forward: out ch read inch
      tport_t* p = O[a[0]].ch[a[1]];
      tport_t* s = inview(x->read[a[2]].id, &views[a[2]])[a[3]];
      if (s->is_present) { lf_token_t* t = s->token; lf_set_token(p, t); h = mix(h, 31); }
      break; }
    case 4: { // forward an action's token: out ch action
      tport_t* p = O[a[0]].ch[a[1]];
      raction_t* ac = &A[a[2]];
      if (ac->act.base.is_present && ac->act.base.has_value) { lf_token_t* t = ac->act.base.tmplt.token; lf_set_token(p, t); h = mix(h, 32); }
      break; }
    case 5: { // mutate a mutable input: read inch
      tport_t* s = inview(x->read[a[0]].id, &views[a[0]])[a[1]];
      rin_t* in = &I[x->read[a[0]].id];
      if (s->is_present && s->value) {
        if (in->ptype == 2) { obj_t* ob = (obj_t*)s->value; for (int i = 0; i < ob->len; i++) ob->d[i] ^= sv; }
        else for (size_t i = 0; i < s->length; i++) s->value[i] ^= sv;
        vt_yield();
        h = hash_value(h, in->ptype, s->value, s->length);
      }
      break; }
    case 6: { // one new token to two outputs: out ch out ch len
      tport_t* p = O[a[0]].ch[a[1]]; tport_t* q = O[a[2]].ch[a[3]];
      lf_token_t* t = O[a[0]].ptype == 2 ? lf_new_token(p, obj_new(sv, (int)((uint64_t)sv % 16)), 1) : lf_new_token(p, arr_new(sv, a[4]), a[4]);
      lf_set_token(p, t); lf_set_token(q, t);
      break; }
    case 7: { // action delay kind
      int64_t before = vt_now() - start_time;
      schedule_op(&A[a[0]], a[2], a[1], sv, NULL);
      if (A[a[0]].physical)
        TR("J %d %d %d %lld %lld %lld %lld %lld %u %d\n", -1 - xi, k, (int)a[0], (long long)before, (long long)(vt_now() - start_time), (long long)a[1],
           (long long)(A[a[0]].ptype == 3 ? (int)sv : sv), (long long)et, tag.microstep, (int)a[2]);
      break; }
    case 8: { // schedule an input's token: action delay read inch
      tport_t* s = inview(x->read[a[2]].id, &views[a[2]])[a[3]];
      if (s->is_present) { schedule_op(&A[a[0]], 0, a[1], 0, s->token); h = mix(h, 33); }
      break; }
    case 9: { // schedule an action's token: action delay srcaction
      raction_t* ac = &A[a[2]];
      if (ac->act.base.is_present && ac->act.base.has_value) { schedule_op(&A[a[0]], 0, a[1], 0, ac->act.base.tmplt.token); h = mix(h, 34); }
      break; }
    case 10: TR("S %lld %u\n", (long long)et, tag.microstep); lf_request_stop(); break;
    case 11: vt_advance(a[0]); break;
    case 12: // mode kind: 1 reset 2 history
#ifdef MODAL_REACTORS
      _LF_SET_MODE_WITH_TYPE((&MODE[a[0]]), a[1] == 1 ? reset_transition : history_transition);
#endif
      break;
#if !defined(LF_SINGLE_THREADED) && NUMBER_OF_WATCHDOGS
    case 13: case 18: { // op 18: relative to physical time
      int64_t add = (o->op == 18 ? vt_now() - tag.time : 0) + a[1], now = vt_now() - start_time;
      lf_watchdog_start(&W[a[0]].wd, add);
      // The tag may advance while a watchdog's handler executes, so give the tags before and after.
      TR("w %lld %lld %lld %lld %lld\n", (long long)a[0], (long long)add, (long long)et, (long long)(env[0].current_tag.time - start_time), (long long)now); break; }
    case 14: TR("v %lld %lld %u %lld\n", (long long)a[0], (long long)et, tag.microstep, (long long)(vt_now() - start_time)); lf_watchdog_stop(&W[a[0]].wd); break;
#endif
    case 15: { // explicit deadline check
      int64_t before = vt_now();
      in_check = 1; check_called = 0;
      bool b = lf_check_deadline(self, a[0]);
      in_check = 0;
      TR("C %d %lld %lld %lld %d %d %d\n", xi, (long long)et, (long long)(before - start_time), (long long)(vt_now() - start_time), b, (int)a[0], check_called);
      break; }
    case 16: { // explicit writable copy of a non-mutable input, mutated: read inch
      int id = x->read[a[0]].id; rin_t* in = &I[id];
      tport_t* s = in->port[a[1]];
      if (s->is_present) {
        in_api = in->ptype == 1; api_size = 8 * s->token->length; if (api_size < 100) in_api = 0;
        lf_token_t* t = lf_writable_copy((lf_port_base_t*)s);
        in_api = 0;
        if (in->ptype == 2) { obj_t* ob = (obj_t*)t->value; for (int i = 0; i < ob->len; i++) ob->d[i] ^= sv; }
        else for (size_t i = 0; i < t->length; i++) ((int64_t*)t->value)[i] ^= sv;
        vt_yield();
        h = hash_value(h, in->ptype, t->value, t->length);
      }
      break; }
#ifdef RX_FED
    case 30: { // a message to another federate: connection
      rnet_t* n = &N[a[0]];
      tport_t* s = inview(x->read[0].id, &views[0])[0];
      if (!s->is_present) break;
      int pt = I[x->read[0].id].ptype;
      char dest[40]; snprintf(dest, sizeof dest, "federate %d via the RTI", n->dst);
      TR("N %lld %lld %u %lld\n", (long long)a[0], (long long)et, tag.microstep, (long long)(vt_now() - start_time));
      if (n->phys) lf_send_message(MSG_TYPE_P2P_MESSAGE, n->port, n->dst, dest, pt == 0 ? 8 : s->token->length * 8, pt == 0 ? (unsigned char*)&((iport_t*)s)->value : (unsigned char*)s->token->value);
      else lf_send_tagged_message(env, n->delay, P2P(*n) ? MSG_TYPE_P2P_TAGGED_MESSAGE : MSG_TYPE_TAGGED_MESSAGE, n->port, n->dst, dest, pt == 0 ? 8 : s->token->length * 8, pt == 0 ? (unsigned char*)&((iport_t*)s)->value : (unsigned char*)s->token->value);
      break; }
    case 32: { // a message from another federate: connection out
      raction_t* ac = &A[N[a[0]].action];
      if (!ac->act.base.is_present) break;
#ifdef FEDERATED_DECENTRALIZED
      if (!ac->physical) TR("Q %lld %lld %u %lld %u\n", (long long)a[0], (long long)et, tag.microstep,
        (long long)(ac->trig.intended_tag.time - start_time), ac->trig.intended_tag.microstep);
#endif
      if (P2P(N[a[0]]) || ac->physical) { // what the message contains
        lf_token_t* t = ac->act.base.tmplt.token; int64_t* v = t->value; char line[600];
        size_t k = 0;
        do {
          int m = snprintf(line, sizeof line, "V %lld %lld %u %lld %zu", (long long)a[0], (long long)et, tag.microstep, (long long)phys, t->length);
          for (int j = 0; j < 20 && k < t->length; j++, k++) m += snprintf(line + m, sizeof line - m, " %lld", (long long)v[k]);
          TR("%s\n", line);
        } while (k < t->length);
      }
      if (O[a[1]].ptype == 0) { iport_t* p = (iport_t*)O[a[1]].ch[0]; lf_set(p, *(int64_t*)ac->act.base.tmplt.token->value); }
      else { tport_t* p = O[a[1]].ch[0]; lf_token_t* t = ac->act.base.tmplt.token; lf_set_token(p, t); }
      break; }
#endif
    case 17: vt_sleep_until(vt_now() + a[0]); break; // blocks the calling thread (others may run)
    }
    vt_yield();
  }
  if (kind != 'W') SET_STATE(&self->state, (int64_t)mix(self->state, h));
  if (env->current_tag.time != tag.time || env->current_tag.microstep != tag.microstep)
    if (kind != 'W') TR("X the tag changed while reaction %d was executing\n", xi);
  { int64_t m, l; vt_readings(&m, &l); }
  TR("E %d %llu %lld %c\n", xi, (unsigned long long)h, (long long)(seqno++), kind);
  if (views) { for (int i = 0; i < x->nread; i++) free(views[i].ch); free(views); }
}

#define FN(k) \
  static void fn_##k(void* s) { struct rself* f = s; int x = R[f->idx].reactions[k]; exec(x, 'B', f, X[x].nbody, X[x].body); } \
  static void hn_##k(void* s) { struct rself* f = s; if (in_check) { check_called++; return; } int x = R[f->idx].reactions[k]; exec(x, 'D', f, X[x].nhand, X[x].hand); }
FN(0) FN(1) FN(2) FN(3) FN(4) FN(5) FN(6) FN(7) FN(8) FN(9) FN(10) FN(11) FN(12) FN(13) FN(14) FN(15)
FN(16) FN(17) FN(18) FN(19) FN(20) FN(21) FN(22) FN(23) FN(24) FN(25) FN(26) FN(27) FN(28) FN(29) FN(30) FN(31)
#ifdef FEDERATED_DECENTRALIZED
#define SN(k) static void sn_##k(void* s) { struct rself* f = s; environment_t* env = f->base.environment; \
    TR("Z %d %lld %u\n", R[f->idx].reactions[k], (long long)(env->current_tag.time - start_time), env->current_tag.microstep); fn_##k(s); }
SN(0) SN(1) SN(2) SN(3) SN(4) SN(5) SN(6) SN(7) SN(8) SN(9) SN(10) SN(11) SN(12) SN(13) SN(14) SN(15)
SN(16) SN(17) SN(18) SN(19) SN(20) SN(21) SN(22) SN(23) SN(24) SN(25) SN(26) SN(27) SN(28) SN(29) SN(30) SN(31)
static reaction_function_t sns[] = {sn_0, sn_1, sn_2, sn_3, sn_4, sn_5, sn_6, sn_7, sn_8, sn_9, sn_10, sn_11, sn_12, sn_13, sn_14, sn_15,
  sn_16, sn_17, sn_18, sn_19, sn_20, sn_21, sn_22, sn_23, sn_24, sn_25, sn_26, sn_27, sn_28, sn_29, sn_30, sn_31};
static int nZ, Z[4096]; // the reactions with an STP violation handler
#endif
static reaction_function_t fns[] = {fn_0, fn_1, fn_2, fn_3, fn_4, fn_5, fn_6, fn_7, fn_8, fn_9, fn_10, fn_11, fn_12, fn_13, fn_14, fn_15,
  fn_16, fn_17, fn_18, fn_19, fn_20, fn_21, fn_22, fn_23, fn_24, fn_25, fn_26, fn_27, fn_28, fn_29, fn_30, fn_31};
static reaction_function_t hns[] = {hn_0, hn_1, hn_2, hn_3, hn_4, hn_5, hn_6, hn_7, hn_8, hn_9, hn_10, hn_11, hn_12, hn_13, hn_14, hn_15,
  hn_16, hn_17, hn_18, hn_19, hn_20, hn_21, hn_22, hn_23, hn_24, hn_25, hn_26, hn_27, hn_28, hn_29, hn_30, hn_31};
#define WN(k) static void wn_##k(void* s) { struct rself* f = s; int w = R[f->idx].wd[k]; exec(w, 'W', f, W[w].nbody, W[w].body); }
WN(0) WN(1) WN(2) WN(3)
static void (*wns[])(void*) = {wn_0, wn_1, wn_2, wn_3};

// ---------------------------------------------------------------- what the compiler would generate
int _lf_get_environments(environment_t** envs) { *envs = ENV; return nENV; }
#ifdef RX_FED
void logical_tag_complete(tag_t t) { lf_latest_tag_confirmed(t); }
#else
void logical_tag_complete(tag_t t) { (void)t; }
#endif
void lf_set_default_command_line_options(void) {}
static void reader(void) {
  nENV = rd();
  nR = rd(); R = calloc(nR + 1, sizeof *R);
  for (int i = 0; i < nR; i++) { R[i].parent_mode = rd(); R[i].env = rd(); R[i].reactions = calloc(64, sizeof(int)); R[i].modes = calloc(16, sizeof(int)); }
  nMD = rd(); MD = calloc(nMD + 1, sizeof *MD);
  for (int i = 0; i < nMD; i++) { MD[i].reactor = rd(); rreactor_t* r = &R[MD[i].reactor]; r->modes[r->nmodes++] = i; }
  nA = rd(); A = calloc(nA + 1, sizeof *A);
  for (int i = 0; i < nA; i++) { raction_t* a = &A[i]; a->reactor = rd(); a->physical = rd(); a->min_delay = rd(); a->spacing = rd(); a->policy = rd(); a->ptype = rd(); a->mode = rd(); }
  nTM = rd(); TM = calloc(nTM + 1, sizeof *TM);
  for (int i = 0; i < nTM; i++) { TM[i].reactor = rd(); TM[i].offset = rd(); TM[i].period = rd(); TM[i].mode = rd(); }
  nO = rd(); O = calloc(nO + 1, sizeof *O);
  for (int i = 0; i < nO; i++) { O[i].reactor = rd(); O[i].ptype = rd(); O[i].width = rd(); }
  nI = rd(); I = calloc(nI + 1, sizeof *I);
  for (int i = 0; i < nI; i++) {
    rin_t* in = &I[i];
    in->reactor = rd(); in->ptype = rd(); in->width = rd(); in->mut = rd(); in->sparse = rd();
    in->so = calloc(in->width + 1, sizeof(int)); in->sc = calloc(in->width + 1, sizeof(int));
    for (int c = 0; c < in->width; c++) { in->so[c] = rd(); in->sc[c] = rd(); }
  }
  nW = rd(); W = calloc(nW + 1, sizeof *W);
  for (int i = 0; i < nW; i++) { W[i].reactor = rd(); W[i].min = rd(); rdops(&W[i].nbody, &W[i].body); rreactor_t* r = &R[W[i].reactor]; r->wd[r->nwd++] = i; }
  nX = rd(); X = calloc(nX + 1, sizeof *X);
  for (int i = 0; i < nX; i++) {
    rreaction_t* x = &X[i];
    x->reactor = rd(); x->level = rd(); x->mode = rd(); x->deadline = rd(); x->prio_deadline = rd(); x->last_enabling = rd(); x->has_handler = rd();
    x->startup = rd(); x->shutdown = rd(); x->reset = rd();
    x->ntrig = rd(); x->trig = calloc(x->ntrig + 1, sizeof(ref_t));
    for (int k = 0; k < x->ntrig; k++) { x->trig[k].kind = rd(); x->trig[k].id = rd(); }
    x->nread = rd(); x->read = calloc(x->nread + 1, sizeof(ref_t));
    for (int k = 0; k < x->nread; k++) { x->read[k].kind = rd(); x->read[k].id = rd(); }
    x->neff = rd(); x->eff = calloc(x->neff + 1, sizeof(int));
    for (int k = 0; k < x->neff; k++) x->eff[k] = rd();
    rdops(&x->nbody, &x->body); rdops(&x->nhand, &x->hand);
    rreactor_t* r = &R[x->reactor];
    x->number = r->nreactions; r->reactions[r->nreactions++] = i;
    if (r->nreactions > 32) BAD("too many reactions in a reactor\n");
  }
  nRST = rd(); rst_mode = calloc(nRST + 1, sizeof(int)); rst_reactor = calloc(nRST + 1, sizeof(int));
  for (int i = 0; i < nRST; i++) { rst_mode[i] = rd(); rst_reactor[i] = rd(); }
  nJ = rd(); J = calloc(nJ + 1, sizeof *J);
  for (int i = 0; i < nJ; i++) {
    J[i].n = rd(); J[i].e = calloc(J[i].n + 1, sizeof(inj_t));
    for (int k = 0; k < J[i].n; k++) { inj_t* e = &J[i].e[k]; e->t = rd(); e->kind = rd(); e->action = rd(); e->delay = rd(); e->v = rd(); }
  }
#ifdef RX_FED
  nN = rd(); N = calloc(nN + 1, sizeof *N);
  for (int i = 0; i < nN; i++) { N[i].action = rd(); N[i].src = rd(); N[i].dst = rd(); N[i].port = rd(); N[i].delay = rd(); N[i].zdc = rd(); N[i].phys = rd(); N[i].staa = rd(); if (N[i].delay < 0) N[i].delay = NEVER; }
  int nf = rd();
  for (int i = 0; i < nf; i++) {
    NB[i].nup = rd(); for (int k = 0; k < NB[i].nup; k++) { NB[i].up[k] = rd(); NB[i].upd[k] = rd(); if (NB[i].upd[k] < 0) NB[i].upd[k] = NEVER; }
    NB[i].ndown = rd(); for (int k = 0; k < NB[i].ndown; k++) NB[i].down[k] = rd();
    NB[i].physmin = rd(); NB[i].sta = rd();
  }
  int nz = rd();
  for (int i = 0; i < nz; i++) {
    int z = rd();
#ifdef FEDERATED_DECENTRALIZED
    Z[nZ++] = z;
#endif
    (void)z;
  }
  // what is in another federate is not built
  nENV = 1;
  for (int i = 0; i < nR; i++) R[i].env = R[i].env == FED ? 0 : -1;
  for (int i = 0; i < nJ; i++) if (!J[i].n || (J[i].e[0].kind == 10 ? J[i].e[0].delay != FED : !MINE(A[J[i].e[0].action].reactor))) J[i].n = 0;
#endif
}
#ifdef MODAL_REACTORS
#define RMODE(m) ((m) >= 0 ? &MODE[m] : NULL)
#else
#define RMODE(m) NULL
#endif
static int emode(int own, int reactor) { return own >= 0 ? own : R[reactor].parent_mode; }

void lf_create_environments(void) {
  for (int e = 0; e < nENV; e++) {
    int nt = 0, ns = 0, nsd = 0, nr = 0, np = 0, nm = 0, nst = 0, nw = 0;
    for (int i = 0; i < nTM; i++) nt += R[TM[i].reactor].env == e;
    for (int i = 0; i < nX; i++) if (R[X[i].reactor].env == e) { ns += X[i].startup; nsd += X[i].shutdown; nr += X[i].reset; }
    for (int i = 0; i < nO; i++) if (R[O[i].reactor].env == e) np += O[i].width;
    for (int i = 0; i < nA; i++) np += R[A[i].reactor].env == e;
    for (int i = 0; i < nR; i++) nm += R[i].env == e && R[i].nmodes > 0;
    for (int i = 0; i < nRST; i++) nst += R[rst_reactor[i]].env == e;
    for (int i = 0; i < nW; i++) nw += R[W[i].reactor].env == e;
    char name[20]; snprintf(name, sizeof name, e ? "env%d" : "main", e);
    int nwk = _lf_number_of_workers ? _lf_number_of_workers : 2;
    environment_init(&ENV[e], name, e, nwk, nt, ns, nsd, nr, np, nm, nst, nw, NULL);
  }
}
static void set_type(void* t, int ptype) {
#ifdef RX_PY
  return;
#endif
  token_type_t* tt = t;
  if (ptype == 2) { tt->destructor = obj_destroy; tt->copy_constructor = obj_copy; }
}
#ifdef RX_PY
static size_t elsize(int ptype) { return sizeof(void*); }
#else
static size_t elsize(int ptype) { return ptype == 2 ? sizeof(obj_t) : ptype == 3 ? sizeof(int) : 8; }
#endif

#if !defined(LF_SINGLE_THREADED)
static pthread_mutex_t started_m = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t started_c = PTHREAD_COND_INITIALIZER; static int started;
static void set_started(void) { pthread_mutex_lock(&started_m); started = 1; pthread_cond_broadcast(&started_c); pthread_mutex_unlock(&started_m); }
static void* injector(void* p) { // another thread of the application, started by a reaction
  rinj_t* j = p;
  pthread_mutex_lock(&started_m);
  while (!started) pthread_cond_wait(&started_c, &started_m);
  pthread_mutex_unlock(&started_m);
  for (int k = 0; k < j->n; k++) {
    inj_t* e = &j->e[k];
    vt_sleep_until(start_time + e->t);
    int64_t before = vt_now() - start_time;
    if (e->kind == 10) { lf_request_stop(); TR("q %lld %lld\n", (long long)before, (long long)(vt_now() - start_time)); continue; }
    raction_t* a = &A[e->action];
    schedule_op(a, e->kind, e->delay, e->v, NULL);
    TR("J %d %d %d %lld %lld %lld %lld -1 0 %d\n", (int)(j - J), k, e->action, (long long)before, (long long)(vt_now() - start_time), (long long)e->delay, (long long)e->v, e->kind);
  }
  return NULL;
}
#endif
static int terminated;
#ifdef RX_FED
static void join_injectors(void) {
#else
void lf_terminate_execution(environment_t* env) {
  (void)env;
#endif
#if !defined(LF_SINGLE_THREADED)
  set_started();
  for (int i = 0; i < nJ; i++) if (J[i].th) pthread_join(J[i].th, NULL);
#endif
  terminated = 1;
}
#ifdef RX_FED
// ---------------------------------------------------------------- what the compiler would generate for a federate
lf_action_base_t* _lf_action_table[128];
interval_t _lf_action_delay_table[128];
size_t _lf_action_table_size;
lf_action_base_t* _lf_zero_delay_cycle_action_table[128];
size_t _lf_zero_delay_cycle_action_table_size;
reaction_t* network_input_reactions[128];
size_t num_network_input_reactions;
reaction_t* port_absent_reaction[128];
size_t num_port_absent_reactions;
#ifdef FEDERATED_DECENTRALIZED
staa_t* staa_lst[128];
size_t staa_lst_size;
static int by_staa(const void* a, const void* b) { interval_t x = (*(staa_t**)a)->STAA, y = (*(staa_t**)b)->STAA; return x < y ? -1 : x > y; }
#endif
extern federate_instance_t _fed;
void lf_send_neighbor_structure_to_RTI(int socket) {
  rnb_t* b = &NB[FED];
  size_t n = 1 + 8 + b->nup * 10 + b->ndown * 2, h = 1;
  unsigned char* m = malloc(n);
  m[0] = MSG_TYPE_NEIGHBOR_STRUCTURE;
  encode_int32(b->nup, m + h); h += 4;
  encode_int32(b->ndown, m + h); h += 4;
  for (int i = 0; i < b->nup; i++) { encode_uint16(b->up[i], m + h); h += 2; encode_int64(b->upd[i], m + h); h += 8; }
  for (int i = 0; i < b->ndown; i++) { encode_uint16(b->down[i], m + h); h += 2; }
  write_to_socket_fail_on_error(&socket, n, m, NULL, "Failed to send the neighbor structure");
  free(m);
}
static void fed_preamble(void) {
  rnb_t* b = &NB[FED];
  _lf_my_fed_id = FED;
  _fed.has_upstream = b->nup > 0; _fed.has_downstream = b->ndown > 0;
  if (b->physmin >= 0) _fed.min_delay_from_physical_action_to_federate_output = b->physmin;
  for (int i = 0; i < nX; i++) if (X[i].nbody && MINE(X[i].reactor)) {
    op_t* o = &X[i].body[0]; rnet_t* n = &N[o->a[0]];
    if (o->op == 33) num_port_absent_reactions++;
    if (o->op == 32) {
      raction_t* a = &A[n->action];
      a->trig.last_known_status_tag = NEVER_TAG; a->trig.intended_tag = NEVER_TAG;
      a->trig.is_physical = n->phys;
#ifdef FEDERATED_DECENTRALIZED
      a->act.base.source_id = n->src;
      if (!n->phys) {
        size_t k;
        for (k = 0; k < staa_lst_size && staa_lst[k]->STAA != n->staa; k++);
        if (k == staa_lst_size) {
          staa_lst_size++;
          staa_lst[k] = calloc(1, sizeof(staa_t)); staa_lst[k]->STAA = n->staa; staa_lst[k]->actions = calloc(128, sizeof(void*));
        }
        staa_lst[k]->actions[staa_lst[k]->num_actions++] = &a->act.base;
      }
#endif
      _lf_action_table[n->port] = &a->act.base;
      _lf_action_delay_table[n->port] = n->delay;
      _lf_action_table_size++;
      if (n->zdc) _lf_zero_delay_cycle_action_table[_lf_zero_delay_cycle_action_table_size++] = &a->act.base;
      network_input_reactions[num_network_input_reactions++] = X[i].r;
      X[i].r->is_an_input_reaction = true;
    }
  }
#ifdef FEDERATED_DECENTRALIZED
  qsort(staa_lst, staa_lst_size, sizeof *staa_lst, by_staa);
  lf_set_stp_offset(b->sta);
  for (int i = 0; i < nZ; i++) if (MINE(X[Z[i]].reactor)) X[Z[i]].r->STP_handler = sns[X[Z[i]].number];
  static tag_t intended[4096];
  for (int i = 0; i < ENV[0]._lf_intended_tag_fields_size; i++) ENV[0]._lf_intended_tag_fields[i] = &intended[i];
#endif
  lf_mutex_init(&lf_outbound_socket_mutex);
  lf_cond_init(&lf_port_status_changed, &ENV[0].mutex);
  int nin = 0;
  for (int i = 0; i < nN; i++) if (P2P(N[i]) && N[i].dst == FED) { int seen = 0; for (int k = 0; k < i; k++) seen |= P2P(N[k]) && N[k].dst == FED && N[k].src == N[i].src; nin += !seen; }
  _fed.number_of_inbound_p2p_connections = nin;
  lf_connect_to_rti("localhost", 15045);
  if (nin) {
    lf_create_server(0);
    lf_thread_create(&_fed.inbound_p2p_handling_thread_id, lf_handle_p2p_connections_from_federates, &ENV[0]);
  }
  for (int i = 0; i < nN; i++) if (P2P(N[i]) && N[i].src == FED) { int seen = 0; for (int k = 0; k < i; k++) seen |= P2P(N[k]) && N[k].src == FED && N[k].dst == N[i].dst; if (!seen) lf_connect_to_federate(N[i].dst); }
}
#endif
static trigger_t* mktrig(trigger_t* t, int n) { t->reactions = calloc(n + 1, sizeof(reaction_t*)); return t; }
static void add_reaction(trigger_t* t, reaction_t* r) { t->reactions[t->number_of_reactions++] = r; }

void _lf_initialize_trigger_objects(void) {
#ifdef MODAL_REACTORS
  MODE = calloc(nMD + 1, sizeof(reactor_mode_t));
#endif
  for (int i = 0; i < nR; i++) {
    R[i].self = (struct rself*)lf_new_reactor(sizeof(struct rself));
    R[i].self->idx = i; SET_STATE(&R[i].self->state, state0 + i);
    if (!MINE(i)) continue;
    R[i].self->base.environment = &ENV[R[i].env];
  }
#ifdef MODAL_REACTORS
  for (int i = 0; i < nMD; i++) {
    MODE[i].state = &R[MD[i].reactor].self->base._lf__mode_state;
    MODE[i].name = "mode";
  }
  int mi[MAXENV] = {0};
  for (int i = 0; i < nR; i++) {
    reactor_mode_state_t* st = &R[i].self->base._lf__mode_state;
    st->parent_mode = RMODE(R[i].parent_mode);
    if (R[i].nmodes) {
      st->initial_mode = st->current_mode = &MODE[R[i].modes[0]];
      st->next_mode = NULL; st->mode_change = no_transition;
      environment_t* e = R[i].self->base.environment;
      e->modes->modal_reactor_states[mi[R[i].env]++] = st;
    }
  }
  int si[MAXENV] = {0};
  for (int i = 0; i < nRST; i++) {
    static int64_t init[256][3];
    SET_STATE(init[rst_reactor[i]], state0 + rst_reactor[i]);
    environment_t* e = R[rst_reactor[i]].self->base.environment;
    e->modes->state_resets[si[R[rst_reactor[i]].env]++] =
      (mode_state_variable_reset_data_t){&MODE[rst_mode[i]], &R[rst_reactor[i]].self->state, init[rst_reactor[i]], sizeof init[0]};
  }
#endif
  int ti[MAXENV] = {0}, pi[MAXENV] = {0}, su[MAXENV] = {0}, sd[MAXENV] = {0}, rs[MAXENV] = {0};
  // output ports
  for (int i = 0; i < nO; i++) {
    rout_t* o = &O[i];
    if (!MINE(o->reactor)) continue;
    o->ch = calloc(o->width, sizeof(void*)); o->trigs = calloc(o->width, sizeof(void*)); o->ntrigs = calloc(o->width, sizeof(int));
    for (int c = 0; c < o->width; c++) {
      o->ch[c] = calloc(1, sizeof(tport_t));
      o->ch[c]->_base.source_reactor = &R[o->reactor].self->base;
      o->ch[c]->_base.destination_channel = -1;
      o->trigs[c] = calloc(nI + 1, sizeof(trigger_t*));
      o->ch[c]->type.element_size = elsize(o->ptype);
      if (o->ptype || PYTHON) { set_type(o->ch[c], o->ptype); _lf_initialize_template((token_template_t*)o->ch[c], elsize(o->ptype)); }
      int e = R[o->reactor].env;
      ENV[e].is_present_fields[pi[e]++] = &o->ch[c]->is_present;
    }
  }
  // inputs
  for (int i = 0; i < nI; i++) {
    rin_t* in = &I[i];
    if (!MINE(in->reactor)) continue;
    mktrig(&in->trig, nX);
    in->trig.last_tag = NEVER_TAG; NOINTENT(in->trig);
    in->trig.tmplt.type.element_size = elsize(in->ptype);
    in->port = calloc(in->width, sizeof(void*));
    if (in->sparse) {
      in->rec = calloc(1, sizeof *in->rec);
      in->rec->capacity = in->sparse;
      in->rec->present_channels = calloc(in->rec->capacity, sizeof(size_t));
    }
    for (int c = 0; c < in->width; c++) {
      if (in->so[c] < 0) {
        in->port[c] = calloc(1, sizeof(tport_t));
        in->port[c]->_base.destination_channel = -1;
      } else {
        rout_t* o = &O[in->so[c]];
        in->port[c] = o->ch[in->sc[c]];
        in->port[c]->_base.num_destinations++;
      }
      in->port[c]->_base.sparse_record = in->rec;
      in->port[c]->_base.destination_channel = in->rec ? c : -1;
    }
    if (in->rec) {
      environment_t* env = &ENV[R[in->reactor].env];
      if (env->sparse_io_record_sizes.start == NULL) env->sparse_io_record_sizes = vector_new(1);
      vector_push(&env->sparse_io_record_sizes, &in->rec->size);
    }
    for (int c = 0; c < in->width; c++) if (in->so[c] >= 0) {
      rout_t* o = &O[in->so[c]]; int sc = in->sc[c], k;
      for (k = 0; k < o->ntrigs[sc]; k++) if (o->trigs[sc][k] == &in->trig) break;
      if (k == o->ntrigs[sc]) o->trigs[sc][o->ntrigs[sc]++] = &in->trig;
    }
  }
  for (int i = 0; i < nA; i++) {
    raction_t* a = &A[i];
    if (!MINE(a->reactor)) continue;
    trigger_t* t = mktrig(&a->trig, nX);
    t->last_tag = NEVER_TAG; NOINTENT(*t);
    t->is_physical = a->physical; t->offset = a->min_delay; t->period = a->spacing; t->policy = a->policy;
    t->mode = RMODE(emode(a->mode, a->reactor));
    t->tmplt.type.element_size = a->ptype ? elsize(a->ptype) : 0;
    a->act.base.trigger = t; a->act.base.parent = &R[a->reactor].self->base; a->act.base.source_id = -1;
    a->act.base.tmplt.type.element_size = a->ptype ? elsize(a->ptype) : 0;
    if (a->ptype || PYTHON) {
      set_type(&a->act, a->ptype); set_type(t, a->ptype);
      _lf_initialize_template((token_template_t*)&a->act, elsize(a->ptype));
      _lf_initialize_template((token_template_t*)t, elsize(a->ptype));
    }
    int e = R[a->reactor].env;
    ENV[e].is_present_fields[pi[e]++] = (bool*)&t->status;
  }
  for (int i = 0; i < nTM; i++) {
    if (!MINE(TM[i].reactor)) continue;
    trigger_t* t = mktrig(&TM[i].trig, nX);
    t->last_tag = NEVER_TAG; NOINTENT(*t); t->is_timer = true; t->offset = TM[i].offset; t->period = TM[i].period;
    t->mode = RMODE(emode(TM[i].mode, TM[i].reactor));
    int e = R[TM[i].reactor].env;
    ENV[e].timer_triggers[ti[e]++] = t;
  }
  // reactions
  for (int i = 0; i < nX; i++) X[i].r = calloc(1, sizeof(reaction_t));
  for (int i = 0; i < nX; i++) {
    rreaction_t* x = &X[i]; reaction_t* r = x->r;
    if (!MINE(x->reactor)) continue;
    int e = R[x->reactor].env;
    r->function = fns[x->number]; r->self = R[x->reactor].self; r->number = x->number; r->name = "reaction";
    r->index = lf_combine_deadline_and_level(x->prio_deadline, x->level);
    r->status = inactive; r->deadline = x->deadline; r->worker_affinity = 0;
    r->deadline_violation_handler = x->has_handler ? hns[x->number] : NULL;
    r->mode = RMODE(emode(x->mode, x->reactor));
    if (x->last_enabling >= 0) r->last_enabling_reaction = X[x->last_enabling].r;
    for (int k = 0; k < x->neff; k++) r->num_outputs += O[x->eff[k]].width;
    r->output_produced = calloc(r->num_outputs + 1, sizeof(bool*));
    r->triggered_sizes = calloc(r->num_outputs + 1, sizeof(int));
    r->triggers = calloc(r->num_outputs + 1, sizeof(trigger_t**));
    int n = 0;
    for (int k = 0; k < x->neff; k++) for (int c = 0; c < O[x->eff[k]].width; c++) {
      r->output_produced[n] = &O[x->eff[k]].ch[c]->is_present;
      r->triggered_sizes[n] = O[x->eff[k]].ntrigs[c];
      r->triggers[n] = O[x->eff[k]].trigs[c];
      n++;
    }
    if (x->startup) ENV[e].startup_reactions[su[e]++] = r;
    if (x->shutdown) ENV[e].shutdown_reactions[sd[e]++] = r;
    if (x->reset) ENV[e].reset_reactions[rs[e]++] = r;
    for (int k = 0; k < x->ntrig; k++)
      add_reaction(x->trig[k].kind == 0 ? &I[x->trig[k].id].trig : x->trig[k].kind == 1 ? &A[x->trig[k].id].trig : &TM[x->trig[k].id].trig, r);
  }
#ifdef RX_PY
  py_functions();
#endif
#if !defined(LF_SINGLE_THREADED)
  int wi[MAXENV] = {0};
  for (int i = 0; i < nW; i++) {
    rwd_t* w = &W[i]; rreactor_t* r = &R[w->reactor];
    if (!r->self->base.reactor_mutex) r->self->base.reactor_mutex = calloc(1, sizeof(lf_mutex_t));
    w->wd.base = &r->self->base; w->wd.expiration = NEVER; w->wd.min_expiration = w->min;
    for (int k = 0; k < r->nwd; k++) if (r->wd[k] == i) w->wd.watchdog_function = wns[k];
    int e = r->env;
    ENV[e].watchdogs[wi[e]++] = &w->wd;
  }
  for (int e = 0; e < nENV; e++) {
    static size_t per[MAXENV][512];
    int maxl = 0;
    for (int i = 0; i < nX; i++) if (R[X[i].reactor].env == e) { per[e][X[i].level]++; if (X[i].level > maxl) maxl = X[i].level; }
    static sched_params_t params[MAXENV];
    params[e] = (sched_params_t){.num_reactions_per_level = per[e], .num_reactions_per_level_size = maxl + 1};
    lf_sched_init(&ENV[e], ENV[e].num_workers, &params[e]);
  }
  for (int i = 0; i < nJ; i++) if (J[i].n) pthread_create(&J[i].th, NULL, injector, &J[i]);
#endif
#ifdef RX_FED
  fed_preamble();
#endif
#if defined(LF_TRACE) && !defined(RX_FED)
  trace_register();
#endif
}

#ifdef RX_FED
// Runs one federate to its end, the registered termination functions included.
int fed_entry(int fed, FILE* in, int argc, const char** argv) {
  FED = fed; fin = in;
  reader();
  int r = lf_reactor_c_main(argc, argv);
  join_injectors();
  TR("R %d %lld %u %lld\n", r, (long long)(ENV[0].current_tag.time - start_time), ENV[0].current_tag.microstep, (long long)start_time);
  return r;
}
#else
// ---------------------------------------------------------------- end of the run
static int finished;
static void finish(void) {
  if (finished) return;
  finished = 1;
  int live = 0;
  for (int i = 0; i < nB; i++) {
    if (!B[i].freed) live++;
#ifndef NO_ACCOUNTING
    else for (size_t k = 0; k < B[i].n; k++) if (((unsigned char*)B[i].p)[k] != 0xDD) { memerr("payload %p written after its release", B[i].p); break; }
#endif
  }
#if defined(LF_TRACE) && !defined(RX_FED)
  trace_dump();
#endif
  if (mem_error) TR("M %s\n", mem_error);
  TR("F %d %d %d %d %d %d %d %lld %d\n", terminated, nB, live, max_live, n_ctor, n_dtor, vt_threads_created - vt_threads_joined, (long long)(vt_now() - start_time), vt_switches);
  for (int i = 0; i < nB; i++) if (!B[i].freed && live < 50) TR("L %d %lld %zu\n", B[i].kind, (long long)B[i].born, B[i].n);
  flush_out();
}
static long long prof_seq;
static int prof_n;
static void on_prof(int sig) { // every 2 seconds of processor time
  (void)sig;
  if (finished) _exit(47);
  if (++prof_n == 2) { prof_seq = seqno; if (seqno < 100) return; }
  else if (prof_n < 4) return;
  finished = 1;
  if (prof_n == 2) TR("K 48 processor time\n");
  else TR("K %d %d records in 8 seconds of processor time, %d of them in the second half\n", seqno - prof_seq < 20 ? 47 : 48, (int)seqno, (int)(seqno - prof_seq));
  flush_out();
  _exit(47);
}
static void on_die(int code, const char* msg) { TR("K %d %s\n", code, msg); flush_out(); }

static int run_program(void);
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <signal.h>
static void readn(char* p, size_t n) { while (n) { ssize_t k = read(0, p, n); if (k <= 0) _exit(0); p += k; n -= k; } }
#include <sys/personality.h>
int main(int argc, char** argv) {
  // The adaptive scheduler assigns reactions to workers by their addresses: make addresses reproducible.
  if (!getenv("RX_NOASLR")) {
    int old = personality(0xffffffff);
    setenv("RX_NOASLR", "1", 1);
    if (old != -1 && !(old & ADDR_NO_RANDOMIZE) && personality(old | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  // rx FILE runs one program; without arguments, serves programs from stdin, each in a child process.
  if (argc > 1) {
    fin = fopen(argv[1], "r");
    if (!fin) BAD("cannot open %s\n", argv[1]);
    out_fd = dup(1); dup2(2, 1);
#ifdef RX_PY
    py_boot();
#endif
    return run_program();
  }
#ifdef RX_PY
  py_boot();
#endif
  // The server must not use the heap, so that every child starts with the same one.
  static char errbuf[6001], buf[1 << 24], obuf[8192];
  setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
  for (;;) {
    char hd[17]; readn(hd, 16); hd[16] = 0;
    size_t n = strtoul(hd, NULL, 10);
    if (n >= sizeof buf) BAD("program too long\n");
    readn(buf, n); buf[n] = 0;
    char tmpl[] = "/tmp/rxerr.XXXXXX";
    int efd = mkstemp(tmpl); unlink(tmpl);
    pid_t pid = fork();
    if (pid == 0) {
      out_fd = dup(1); dup2(efd, 1); dup2(efd, 2); close(efd);
      int nul = open("/dev/null", 0); dup2(nul, 0);
      struct itimerval it = {{2, 0}, {2, 0}};
      signal(SIGPROF, on_prof);
      setitimer(ITIMER_PROF, &it, NULL);
      alarm(120);
      fin = fmemopen(buf, n, "r");
#ifdef RX_PY
      PyOS_AfterFork_Child();
#endif
      exit(run_program());
    }
    int st = 0; struct rusage ru;
    wait4(pid, &st, 0, &ru);
    int code = WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st);
    int el = 0;
    if (code) {
      off_t sz = lseek(efd, 0, SEEK_END); off_t from = sz > 6000 ? sz - 6000 : 0;
      el = pread(efd, errbuf, 6000, from); if (el < 0) el = 0;
    }
    close(efd);
    printf("\n@@END %d %d\n", code, el); fwrite(errbuf, 1, el, stdout); fflush(stdout);
  }
}
static int run_program(void) {
  vt_config_t c = {0};
  c.seed = rd(); c.policy = rd(); c.sync_period = rd(); c.mem_period = rd(); c.pct_points = rd(); c.tick = rd(); c.spurious = rd();
  c.start = 1600000000000000000LL;
  vt_on_die = on_die;
  int64_t timeout = rd(), keep = rd(), fst = rd(), workers = rd();
  reader();
  vt_init(&c);
  atexit(finish);
  static char b1[40], b2[40];
  const char* av[16]; int n = 0;
  av[n++] = "rx";
  if (timeout >= 0) { snprintf(b1, sizeof b1, "%lld", (long long)timeout); av[n++] = "-o"; av[n++] = b1; av[n++] = "nsec"; }
  if (keep) { av[n++] = "-k"; av[n++] = "true"; }
  if (fst) { av[n++] = "-f"; av[n++] = "true"; }
  if (workers > 0) { snprintf(b2, sizeof b2, "%lld", (long long)workers); av[n++] = "-w"; av[n++] = b2; }
  av[n] = NULL;
#ifdef RX_PY
  py_setup();
  int r = py_main_(n, av);
#else
  int r = lf_reactor_c_main(n, av);
#endif
  TR("R %d\n", r);
  exit(r);
}
#endif
