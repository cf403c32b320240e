// The real RTI (rti_main) together with model federates that follow the federate side of the protocol and with
// arbitrary other peers, all as threads under the virtual scheduler (vt.c) and the virtual network (net.c).
// Everything that is sent, written by the RTI, received and executed is logged in one global order; the oracle is in
// vlib/rti.py.
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <errno.h>
#include <netinet/in.h>
#include <pthread.h>
#include <signal.h>
#ifdef __RTI_AUTH__
#include <openssl/hmac.h>
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include "../rx/vt.h"
#include "../net/net.h"

int rti_main(int argc, const char* argv[]);
#define FOREVER INT64_MAX
#define NEVER INT64_MIN
typedef struct { int64_t t; uint32_t m; } tg;
static const tg T_FOREVER = {INT64_MAX, UINT32_MAX}, T_NEVER = {INT64_MIN, 0};
static int cmp(tg a, tg b) { return a.t < b.t ? -1 : a.t > b.t ? 1 : a.m < b.m ? -1 : a.m > b.m; }
static tg delay(tg a, int64_t d) { // the tag at which a message over a connection with this delay arrives
  if (d == NEVER) return a;
  if (d == 0) { a.m++; return a; }
  a.t += d; a.m = 0; return a;
}
#define BAD(...) do { fprintf(stderr, __VA_ARGS__); fflush(stderr); _exit(46); } while (0)
static FILE* fin;
static int64_t rd(void) { long long v; if (fscanf(fin, "%lld", &v) != 1) BAD("input: unexpected end\n"); return v; }

// ---------------------------------------------------------------- log
static int out_fd = 1;
static char* out_buf; static size_t out_len, out_cap;
static void flush_out(void) { size_t o = 0; while (o < out_len) { ssize_t k = write(out_fd, out_buf + o, out_len - o); if (k <= 0) break; o += k; } out_len = 0; }
#define LOG(...) do { \
  if (out_cap - out_len < 512) { if (out_cap > (48u << 20)) { flush_out(); vt_die(44, "log too long"); } out_cap = out_cap * 2 + 65536; out_buf = realloc(out_buf, out_cap); } \
  out_len += snprintf(out_buf + out_len, 512, __VA_ARGS__); } while (0)
static void on_die(int code, const char* msg) { LOG("H %d %s\n", code, msg); flush_out(); net_dump(); }

// ---------------------------------------------------------------- federation
typedef struct { int src, dst, port, level, zdc, absent, pm, szmax; int64_t delay; } conn_t;
typedef struct { tg t; int dummy; } ev_t;
typedef struct { int id; uint32_t rng;
  int64_t connect_at, skew, exec_ns; int fast, phys, self_pm, nself; int64_t selfmax;
  int nloc; int64_t* loc; int nphys; int64_t* physt; int physi;
  int stop_at, leave_at, leave_kind, stop2; int udp; int addr;
  int nup, ndown; int up[16], down[16]; int64_t upd[16];
  // state
  int fd, conn, gone, rti_gone, started;
  int64_t start; tg cur, last_tag, ltc, stop, barrier, wait_tag; int addr_wait, prov, executing, stop_req, stop_sent;
  ev_t* q; int nq, cq; tg known[128]; int got_msg, has_event, nexec; int need_wake;
  pthread_t th;
} fed_t;
static fed_t F[16]; static int nF;
static conn_t* C; static int nC;
static int64_t timeout_ns, adv_ns; static int ltc_all;
static char fid[300];
static int64_t base_t;
static int all_leave;
typedef struct { int64_t at; int n; struct { int64_t pause; int len; unsigned char* b; } s[32]; int mode; pthread_t th; } peer_t;
static peer_t P[32]; static int nP;
static int conn_fed[2048];
static int64_t fed_start = 0; // as received by the first federate

static uint32_t frand(fed_t* f) { f->rng ^= f->rng << 13; f->rng ^= f->rng >> 17; f->rng ^= f->rng << 5; return f->rng; }
static int64_t rel(int64_t t) { return t == INT64_MAX || t == INT64_MIN ? t : t - fed_start; }
static void e16(unsigned char* b, unsigned v) { b[0] = v; b[1] = v >> 8; }
static void e32(unsigned char* b, uint32_t v) { for (int i = 0; i < 4; i++) b[i] = v >> (8 * i); }
static void e64(unsigned char* b, int64_t v) { for (int i = 0; i < 8; i++) b[i] = (uint64_t)v >> (8 * i); }
static unsigned d16(const unsigned char* b) { return b[0] | b[1] << 8; }
static uint32_t d32(const unsigned char* b) { return b[0] | b[1] << 8 | b[2] << 16 | (uint32_t)b[3] << 24; }
static int64_t d64(const unsigned char* b) { uint64_t v = 0; for (int i = 7; i >= 0; i--) v = v << 8 | b[i]; return v; }
static tg dtag(const unsigned char* b) { tg t = {d64(b), d32(b + 8)}; return t; }
static void etag(unsigned char* b, tg t) { e64(b, t.t); e32(b + 8, t.m); }

// What the RTI writes, message by message, at the moment it writes it.
static struct { unsigned char b[64]; int n; uint32_t skip; } W[2048];
static int msg_len(int type) {
  switch (type) {
  case 255: case 25: case 4: return 1;
  case 0: return 2;
  case 2: case 19: case 21: case 22: return 9;
  case 7: case 8: case 10: case 12: return 13;
  case 14: return 9;
  case 23: return 17;
  case 5: return 21;
  case 101: return 41;
  default: return -1;
  }
}
static void on_write(int conn, int dir, const unsigned char* p, size_t n) {
  if (dir != 1 || conn >= 2048 || conn_fed[conn] < 0) return;
  int f = conn_fed[conn];
  while (n) {
    if (W[conn].skip) { size_t k = W[conn].skip < n ? W[conn].skip : n; W[conn].skip -= k; p += k; n -= k; continue; }
    W[conn].b[W[conn].n++] = *p++; n--;
    int L = msg_len(W[conn].b[0]);
    if (L < 0) { LOG("B %d the RTI writes an unknown message type %d\n", f, W[conn].b[0]); W[conn].n = 0; continue; }
    if (W[conn].n < L) continue;
    unsigned char* b = W[conn].b; W[conn].n = 0;
    switch (b[0]) {
    case 7: LOG("g %d T %lld %u\n", f, (long long)rel(d64(b + 1)), d32(b + 9)); break;
    case 8: LOG("g %d P %lld %u\n", f, (long long)rel(d64(b + 1)), d32(b + 9)); break;
    case 10: LOG("g %d Q %lld %u\n", f, (long long)rel(d64(b + 1)), d32(b + 9)); break;
    case 12: LOG("g %d G %lld %u\n", f, (long long)rel(d64(b + 1)), d32(b + 9)); break;
    case 23: LOG("g %d Z %lld %u %u %u\n", f, (long long)rel(d64(b + 5)), d32(b + 13), d16(b + 1), d16(b + 3)); break;
    case 5: LOG("g %d M %lld %u %u %u\n", f, (long long)rel(d64(b + 9)), d32(b + 17), d16(b + 1), d16(b + 3)); W[conn].skip = d32(b + 5); break;
    case 2: LOG("g %d S %lld\n", f, (long long)(d64(b + 1) - base_t)); break;
    case 25: LOG("g %d F\n", f); break;
    }
  }
}

// ---------------------------------------------------------------- federate side
static int xwrite(int fd, const unsigned char* b, size_t n) {
  size_t o = 0;
  while (o < n) {
    ssize_t k = write(fd, b + o, n - o);
    if (k < 0 && (errno == EINTR || errno == EAGAIN)) continue;
    if (k < 0) return -1;
    o += k;
  }
  return 0;
}
static int xread(int fd, unsigned char* b, size_t n) {
  size_t o = 0;
  while (o < n) {
    ssize_t k = read(fd, b + o, n - o);
    if (k < 0 && (errno == EINTR || errno == EAGAIN)) continue;
    if (k <= 0) return -1;
    o += k;
  }
  return 0;
}
static void lost(fed_t* f) { if (!f->rti_gone) { f->rti_gone = 1; if (!f->gone) LOG("B %d the connection to the RTI has ended\n", f->id); } }
static void fsend(fed_t* f, const unsigned char* b, size_t n) { if (!f->rti_gone && !f->gone && xwrite(f->fd, b, n)) lost(f); }
static void send_tag(fed_t* f, int type, char c, tg t) {
  unsigned char b[13]; b[0] = type; etag(b + 1, t);
  LOG("%c %d %lld %u\n", c, f->id, (long long)rel(t.t), t.m);
  fsend(f, b, 13);
}
static void q_add(fed_t* f, tg t, int dummy) {
  if (f->nq == f->cq) { f->cq = f->cq * 2 + 16; f->q = realloc(f->q, f->cq * sizeof(ev_t)); }
  f->q[f->nq].t = t; f->q[f->nq++].dummy = dummy;
}
static void phys_due(fed_t* f) {
  if (!f->started) return;
  while (f->physi < f->nphys && f->start + f->physt[f->physi] <= vt_now()) {
    f->physi++;
    tg t = {vt_now() + 1, 0};
    vt_advance(2);
    if (cmp(t, f->cur) <= 0) { t = f->cur; t.m++; }
    LOG("y %d %lld %u\n", f->id, (long long)rel(t.t), t.m);
    q_add(f, t, 0);
  }
}
static tg next_tag(fed_t* f) {
  tg best = T_FOREVER;
  phys_due(f);
  for (int i = 0; i < f->nq; i++) if (cmp(f->q[i].t, best) < 0) best = f->q[i].t;
  if (cmp(best, f->stop) > 0) best = f->stop;
  return best;
}
static void send_ltc(fed_t* f, tg t) {
  if (cmp(f->ltc, t) >= 0) return;
  if (!f->got_msg && !ltc_all) return;
  f->ltc = t;
  send_tag(f, 9, 'L', t);
}
static uint32_t fhash(const unsigned char* b, size_t n) { uint32_t h = 2166136261u; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 16777619u; return h; }

static void handle(fed_t* f, int type) { // one message, whose type has been read
  static __thread unsigned char* big; static __thread size_t bigcap;
  unsigned char b[32];
  switch (type) {
  case 7: case 8: {
    if (xread(f->fd, b, 12)) { lost(f); return; }
    tg t = dtag(b);
    LOG("r %d %c %lld %u\n", f->id, type == 7 ? 'T' : 'P', (long long)rel(t.t), t.m);
    if (type == 7) {
      if (cmp(t, f->last_tag) >= 0) { f->last_tag = t; f->prov = 0; }
      for (int i = 0; i < nC; i++) if (C[i].dst == f->id && cmp(t, f->known[C[i].port]) >= 0) f->known[C[i].port] = t;
    } else {
      if (cmp(t, f->last_tag) < 0 || (cmp(t, f->last_tag) == 0 && !f->prov)) {
        LOG("B %d received a provisional grant %lld %u not after the last grant\n", f->id, (long long)rel(t.t), t.m); return; }
      f->last_tag = t; f->prov = 1;
      int c = cmp(f->cur, t);
      if (c > 0) send_ltc(f, t);
      else if (c < 0 && t.t != FOREVER) q_add(f, t, 1);
    }
    break; }
  case 5: {
    if (xread(f->fd, b, 20)) { lost(f); return; }
    unsigned port = d16(b), dst = d16(b + 2); uint32_t n = d32(b + 4); tg t = dtag(b + 8);
    if (n > (64u << 20)) { LOG("B %d received a message of %u bytes\n", f->id, n); f->rti_gone = 1; return; }
    if (bigcap < n) { bigcap = n * 2 + 64; big = realloc(big, bigcap); }
    if (n && xread(f->fd, big, n)) { lost(f); return; }
    LOG("r %d M %lld %u %u %u %u %u\n", f->id, (long long)rel(t.t), t.m, port, dst, n, fhash(big, n));
    if (dst != (unsigned)f->id || port >= 128) break;
    if (cmp(t, f->known[port]) > 0) f->known[port] = t;
    if (f->executing && cmp(t, f->cur) == 0) { f->has_event = 1; f->got_msg = 1; }
    else if (cmp(t, f->cur) > 0) q_add(f, t, 2);
    else f->has_event = 1;
    break; }
  case 23: {
    if (xread(f->fd, b, 16)) { lost(f); return; }
    unsigned port = d16(b), dst = d16(b + 2); tg t = dtag(b + 4);
    LOG("r %d Z %lld %u %u %u\n", f->id, (long long)rel(t.t), t.m, port, dst);
    if (port < 128 && cmp(t, f->known[port]) > 0) f->known[port] = t;
    break; }
  case 10: {
    if (xread(f->fd, b, 12)) { lost(f); return; }
    tg t = dtag(b);
    LOG("r %d Q %lld %u\n", f->id, (long long)rel(t.t), t.m);
    if (f->stop_req) return;
    f->stop_req = 1;
    if (cmp(t, f->cur) <= 0) { t = f->cur; t.m++; }
    f->barrier = t;
    if (t.m) f->barrier.m--; else { f->barrier.t--; f->barrier.m = UINT32_MAX; }
    send_tag(f, 11, 'P', t);
    break; }
  case 12: {
    if (xread(f->fd, b, 12)) { lost(f); return; }
    tg t = dtag(b);
    LOG("r %d G %lld %u %lld %u\n", f->id, (long long)rel(t.t), t.m, (long long)rel(f->cur.t), f->cur.m);
    if (cmp(t, f->cur) <= 0) { t = f->cur; t.m++; }
    if (cmp(t, f->stop) < 0) f->stop = t;
    f->barrier = T_FOREVER;
    break; }
  case 2:
    if (xread(f->fd, b, 8)) { lost(f); return; }
    LOG("B %d received a second start time\n", f->id);
    break;
  case 25: LOG("B %d the RTI reports a failure\n", f->id); f->rti_gone = 1; break;
  case 14:
    if (xread(f->fd, b, 8)) { lost(f); return; }
    f->addr_wait = 0;
    LOG("r %d A %d %u\n", f->id, (int)d32(b), d32(b + 4));
    break;
  default: LOG("B %d received an unknown message type %d\n", f->id, type); f->rti_gone = 1;
  }
}
// Processes messages that have arrived, perhaps not all; with wait, at least one or until the deadline.
static void pump(fed_t* f, int64_t deadline) {
  if (f->rti_gone || f->gone) { if (deadline > vt_now()) vt_sleep_until(deadline < FOREVER ? deadline : vt_now() + 1000000); return; }
  if (f->physi < f->nphys && f->started && f->start + f->physt[f->physi] < deadline) deadline = f->start + f->physt[f->physi];
  int any = 0;
  while (net_wait_readable(f->fd, any ? 0 : deadline)) {
    unsigned char t;
    if (xread(f->fd, &t, 1)) { lost(f); return; }
    handle(f, t);
    if (f->rti_gone) return;
    any = 1;
    if (vt_rand() % 4 == 0) break;
  }
  phys_due(f);
}
static void fstop(fed_t* f) { // lf_request_stop
  if (f->stop_req) return;
  f->stop_req = 1;
  tg t = f->cur;
  if (cmp(t, f->barrier) < 0) f->barrier = t;
  t.m++;
  send_tag(f, 10, 'Q', t);
}
static void wait_grant(fed_t* f, tg tag) { // lf_send_next_event_tag
  if (!f->nup && !f->ndown) return;
  for (;;) {
    if (f->rti_gone || cmp(f->last_tag, tag) >= 0) return;
    tg orig = tag; int bounded = 0;
    if (f->phys && f->ndown && vt_now() < tag.t) { tag.t = vt_now() - 1; tag.m = 0; bounded = 1; }
    if (!bounded) {
      send_tag(f, 6, 'N', tag);
      if (!f->nup) return;
      tg sent = tag;
      for (;;) {
        pump(f, FOREVER);
        if (f->rti_gone) return;
        tg n = next_tag(f);
        if (cmp(f->last_tag, n) >= 0 || cmp(f->last_tag, tag) >= 0) return;
        if (cmp(n, tag) != 0 && (cmp(n, sent) != 0 || vt_rand() % 3 == 0)) { send_tag(f, 6, 'N', n); sent = n; }
      }
    }
    if (orig.t != FOREVER) { tg d = {tag.t + adv_ns, tag.m}; q_add(f, d, 1); }
    int64_t w = vt_now() + adv_ns;
    if (w > orig.t) w = orig.t;
    pump(f, w);
    tag = next_tag(f);
  }
}
static void work(fed_t* f) { if (f->exec_ns) { if (f->fast) vt_advance(frand(f) % (f->exec_ns + 1)); else vt_sleep_until(vt_now() + frand(f) % (f->exec_ns + 1)); } pump(f, 0); }
static void send_msg(fed_t* f, conn_t* c, tg t, int mid) {
  static __thread unsigned char* buf; static __thread size_t cap;
  size_t n = c->szmax == 0 ? 0 : frand(f) % 4 == 0 ? frand(f) % (c->szmax + 1) : frand(f) % 40 % (c->szmax + 1);
  if (cap < n + 64) { cap = n * 2 + 128; buf = realloc(buf, cap); }
  buf[0] = 5; e16(buf + 1, c->port); e16(buf + 3, c->dst); e32(buf + 5, n); etag(buf + 9, t);
  for (size_t i = 0; i < n; i++) buf[21 + i] = frand(f) >> 8;
  if (mid) { size_t k = 1 + frand(f) % (20 + n); LOG("m %d %d\n", f->id, c->dst); fsend(f, buf, k); return; }
  LOG("S %d %d %u %lld %u %u %zu\n", f->id, c->dst, c->port, (long long)rel(t.t), t.m, fhash(buf + 21, n), n);
  // header and payload are two writes
  if (n && frand(f) % 2) { fsend(f, buf, 21); fsend(f, buf + 21, n); } else fsend(f, buf, 21 + n);
}
static void leave(fed_t* f, int kind) {
  LOG("V %d %d\n", f->id, kind);
  unsigned char b = kind == 0 ? 4 : 25;
  if (kind <= 1) fsend(f, &b, 1);
  if (kind == 3) for (int i = 0; i < nC; i++) if (C[i].src == f->id) { send_msg(f, &C[i], f->cur, 1); break; }
  f->gone = 1;
  if (kind == 0 || (kind == 1 && vt_rand() % 2)) { // lf_terminate_execution: wait until the RTI closes
    unsigned char d[64];
    for (;;) { ssize_t k = read(f->fd, d, 64); if (k == 0 || (k < 0 && errno != EINTR && errno != EAGAIN)) break; }
    if (vt_rand() % 2) shutdown(f->fd, SHUT_RDWR);
  }
  close(f->fd);
}
static void execute(fed_t* f) {
  f->executing = 1; f->has_event = 0; f->got_msg = 0;
  for (int i = 0; i < f->nq;) if (cmp(f->q[i].t, f->cur) <= 0) {
    if (f->q[i].dummy != 1) f->has_event = 1;
    if (f->q[i].dummy == 2) f->got_msg = 1;
    f->q[i] = f->q[--f->nq];
  } else i++;
  LOG("x %d %lld %u\n", f->id, (long long)rel(f->cur.t), f->cur.m);
  int first = cmp(f->cur, (tg){f->start, 0}) == 0;
  if (first) f->has_event = 1; // startup
  work(f);
  int order[256], n = 0;
  for (int i = 0; i < nC; i++) if (C[i].src == f->id || (C[i].dst == f->id && C[i].zdc)) order[n++] = i;
  // connections by level; ties (several delayed outputs) in order
  for (int i = 1; i < n; i++) for (int j = i; j > 0 && C[order[j]].level < C[order[j - 1]].level; j--) { int x = order[j]; order[j] = order[j - 1]; order[j - 1] = x; }
  for (int i = 0; i < n && !f->rti_gone; i++) {
    conn_t* c = &C[order[i]];
    if (c->dst == f->id && c->zdc) { // wait until the input is known
      for (;;) {
        if (cmp(f->known[c->port], f->cur) >= 0) break;
        int k = cmp(f->last_tag, f->cur);
        if (k > 0 || (k == 0 && !f->prov) || !f->nup) break;
        pump(f, FOREVER);
        if (f->rti_gone) break;
      }
    }
    if (c->src == f->id) {
      int final = cmp(f->cur, f->stop) >= 0;
      tg t = delay(f->cur, c->delay);
      int present = f->has_event && (int)(frand(f) % 1000) < c->pm && cmp(t, f->stop) <= 0;
      (void)final;
      if (present) send_msg(f, c, t, 0);
      else if (c->absent) {
        unsigned char b[17]; b[0] = 23; e16(b + 1, c->port); e16(b + 3, c->dst); etag(b + 5, t);
        LOG("Z %d %d %u %lld %u\n", f->id, c->dst, c->port, (long long)rel(t.t), t.m);
        fsend(f, b, 17);
      }
      if (vt_rand() % 2) work(f);
    }
  }
  if (f->has_event && f->nself > 0 && (int)(frand(f) % 1000) < f->self_pm) {
    f->nself--;
    int64_t d = frand(f) % 4 == 0 ? 0 : frand(f) % (f->selfmax + 1);
    q_add(f, delay(f->cur, d), 0);
  }
  work(f);
  if (f->addr && frand(f) % 3 == 0) { unsigned char b[3]; b[0] = 13; e16(b + 1, frand(f) % nF); fsend(f, b, 3); f->addr_wait = 1; while (f->addr_wait && !f->rti_gone) pump(f, FOREVER); }
  f->nexec++;
  if (f->stop_at >= 0 && f->nexec > f->stop_at) { f->stop_at = f->stop2; f->stop2 = -1; fstop(f); }
  if (f->rti_gone) return;
  LOG("e %d %lld %u\n", f->id, (long long)rel(f->cur.t), f->cur.m);
  f->executing = 0;
}
static void barrier_wait(fed_t* f) {
  for (;;) {
    tg n = next_tag(f);
    if (cmp(n, f->barrier) <= 0 || f->rti_gone) return;
    pump(f, FOREVER);
  }
}
static int use_auth;
// The handshake in which both ends prove that they know the federation's identifier. 0: success
static int handshake(int fd, int id) {
#ifdef __RTI_AUTH__
  unsigned char b[64], m[64], tag[64]; unsigned l = 32; int n = strlen(fid);
  b[0] = 100; e16(b + 1, id);
  for (int i = 0; i < 8; i++) b[3 + i] = (unsigned char)(37 * i + id + 1);
  memcpy(m, b, 11); m[0] = 101;
  if (xwrite(fd, b, 11)) return -1;
  if (xread(fd, b, 1)) return -1;
  if (b[0] != 101) return -2;
  if (xread(fd, b + 1, 40)) return -1;
  HMAC(EVP_sha256(), fid, n, m, 11, tag, &l);
  if (memcmp(tag, b + 9, 32)) return -3;
  m[0] = 102; memcpy(m + 1, b + 1, 8);
  b[0] = 102; HMAC(EVP_sha256(), fid, n, m, 9, b + 1, &l);
  return xwrite(fd, b, 33) ? -1 : 0;
#else
  return -1;
#endif
}
static int join(fed_t* f) {
  vt_sleep_until(vt_now() + f->connect_at);
  f->fd = socket(AF_INET, SOCK_STREAM, 0);
  struct sockaddr_in a = {0}; a.sin_family = AF_INET; a.sin_port = htons(15045); a.sin_addr.s_addr = htonl(0x7f000001);
  int tries = 0;
  while (connect(f->fd, (struct sockaddr*)&a, sizeof a)) { if (++tries > 600) { LOG("B %d cannot connect\n", f->id); return -1; } vt_sleep_until(vt_now() + 500000000LL); }
  f->conn = net_conn(f->fd);
  conn_fed[f->conn] = f->id;
  unsigned char b[512]; int n = strlen(fid);
  b[0] = 1; e16(b + 1, f->id); b[3] = n; memcpy(b + 4, fid, n);
  if (use_auth) { int r = handshake(f->fd, f->id); if (r) { LOG("J %d handshake %d\n", f->id, r); return -1; } b[0] = 1; e16(b + 1, f->id); b[3] = n; memcpy(b + 4, fid, n); }
  if (frand(f) % 2) { fsend(f, b, 4); fsend(f, b + 4, n); } else fsend(f, b, 4 + n);
  if (xread(f->fd, b, 1)) { LOG("J %d eof\n", f->id); return -1; }
  if (b[0] != 255) { int t = b[0]; unsigned char r = 0; if (t == 0) xread(f->fd, &r, 1); LOG("J %d reject %d %d\n", f->id, t, r); return -1; }
  LOG("J %d ack\n", f->id);
  b[0] = 24; e32(b + 1, f->nup); e32(b + 5, f->ndown); int o = 9;
  for (int i = 0; i < f->nup; i++) { e16(b + o, f->up[i]); e64(b + o + 2, f->upd[i]); o += 10; }
  for (int i = 0; i < f->ndown; i++) { e16(b + o, f->down[i]); o += 2; }
  if (frand(f) % 2) fsend(f, b, o); else { fsend(f, b, 9); fsend(f, b + 9, o - 9); }
  b[0] = 254; e16(b + 1, f->udp); fsend(f, b, 3);
  int sync = 0;
  for (;;) { // initial clock synchronisation, when the RTI does it, is recognised by its T1 messages
    if (f->udp == 65535 || !sync) { if (f->udp == 65535) break; }
    if (all_leave == 0) break; // exchanges per interval, 0 when the RTI does no synchronisation
    if (sync == all_leave) break;
    if (xread(f->fd, b, 9)) { LOG("B %d the connection ended during clock synchronisation\n", f->id); return -1; }
    if (b[0] != 19) { LOG("B %d expected T1, got %d\n", f->id, b[0]); return -1; }
    int64_t t1 = d64(b + 1), t2 = vt_now();
    b[0] = 20; e32(b + 1, f->id); fsend(f, b, 5);
    if (xread(f->fd, b, 9) || b[0] != 21) { LOG("B %d expected T4, got %d\n", f->id, b[0]); return -1; }
    int64_t t4 = d64(b + 1);
    if (t1 > t2 || t4 < t2 || t4 > vt_now() + 1000) LOG("B %d clock exchange: T1 %lld received %lld T4 %lld now %lld\n", f->id, (long long)(t1 - base_t), (long long)(t2 - base_t), (long long)(t4 - base_t), (long long)(vt_now() - base_t));
    sync++;
  }
  LOG("K %d %d\n", f->id, sync);
  if (f->addr) { b[0] = 15; e32(b + 1, 16000 + f->id); fsend(f, b, 5); }
  vt_sleep_until(vt_now() + frand(f) % 5000000);
  b[0] = 2; int64_t prop = vt_now() + f->skew; e64(b + 1, prop);
  LOG("s %d %lld\n", f->id, (long long)(prop - base_t));
  fsend(f, b, 9);
  if (xread(f->fd, b, 9) || b[0] != 2) { LOG("B %d no start time\n", f->id); return -1; }
  f->start = d64(b + 1);
  if (!fed_start) fed_start = f->start;
  LOG("a %d %lld %lld\n", f->id, (long long)(f->start - base_t), (long long)(vt_now() - base_t));
  return 0;
}
static void* fed_main(void* p) {
  fed_t* f = p;
  f->last_tag = f->ltc = T_NEVER; f->stop = f->barrier = T_FOREVER; f->cur = T_NEVER;
  for (int i = 0; i < 128; i++) f->known[i] = T_NEVER;
  if (join(f)) { LOG("j %d\n", f->id); if (f->fd >= 0) close(f->fd); return NULL; }
  f->started = 1;
  q_add(f, (tg){f->start, 0}, 0);
  if (timeout_ns >= 0) f->stop = (tg){f->start + timeout_ns, 0};
  for (int i = 0; i < f->nloc; i++) q_add(f, (tg){f->start + f->loc[i], 0}, 0);
  while (vt_now() < f->start && !f->rti_gone) pump(f, f->start);
  wait_grant(f, (tg){f->start, 0});
  f->cur = (tg){f->start, 0};
  while (!f->rti_gone) {
    execute(f);
    if (f->rti_gone) break;
    if (f->leave_at >= 0 && f->nexec > f->leave_at) { if (f->leave_kind == 0) send_ltc(f, f->cur); leave(f, f->leave_kind); return NULL; }
    send_ltc(f, f->cur);
    if (cmp(f->cur, f->stop) >= 0) { LOG("F %d %lld %u\n", f->id, (long long)rel(f->cur.t), f->cur.m); leave(f, 0); return NULL; }
    for (;;) {
      tg n = next_tag(f);
      wait_grant(f, n);
      while (!f->rti_gone && (f->nup && cmp(f->last_tag, next_tag(f)) < 0)) { n = next_tag(f); wait_grant(f, n); }
      if (f->rti_gone) break;
      if (!f->fast) for (;;) {
        n = next_tag(f);
        if (n.t <= vt_now() || f->rti_gone) break;
        pump(f, n.t);
      } else pump(f, 0);
      barrier_wait(f);
      if (f->rti_gone) break;
      n = next_tag(f);
      if (f->nup && cmp(n, f->last_tag) > 0) continue; // the event that was granted has gone (the stop tag has changed)
      if (cmp(n, f->cur) <= 0) { LOG("B %d model: next %lld %u not after current\n", f->id, (long long)rel(n.t), n.m); return NULL; }
      f->cur = n;
      break;
    }
  }
  if (f->fd >= 0) close(f->fd);
  return NULL;
}
static void* peer_main(void* p) {
  peer_t* q = p; int id = (int)(q - P);
  vt_sleep_until(vt_now() + q->at);
  int fd = socket(AF_INET, SOCK_STREAM, 0);
  struct sockaddr_in a = {0}; a.sin_family = AF_INET; a.sin_port = htons(15045); a.sin_addr.s_addr = htonl(0x7f000001);
  int ok = 0;
  for (int i = 0; i < 3 && !ok; i++) { ok = !connect(fd, (struct sockaddr*)&a, sizeof a); if (!ok) vt_sleep_until(vt_now() + 1000000000LL); }
  if (!ok) { LOG("p %d refused\n", id); close(fd); return NULL; }
  LOG("p %d connected %lld\n", id, (long long)(vt_now() - base_t));
  if (q->mode & 2) { int r = handshake(fd, 0); if (r) { LOG("p %d handshake %d\n", id, r); close(fd); return NULL; } }
  for (int i = 0; i < q->n; i++) { vt_sleep_until(vt_now() + q->s[i].pause); if (xwrite(fd, q->s[i].b, q->s[i].len)) break; }
  if (q->mode & 1) { close(fd); LOG("p %d closed\n", id); return NULL; }
  // read the answer until the connection ends
  unsigned char b[256]; int n = 0; int64_t end = vt_now() + 40000000000LL; int eof = 0;
  while (net_wait_readable(fd, end)) {
    unsigned char c; ssize_t k = read(fd, &c, 1);
    if (k < 0 && (errno == EINTR || errno == EAGAIN)) continue;
    if (k <= 0) { eof = k == 0 ? 1 : 1 + errno; break; }
    if (n < 256) b[n++] = c;
  }
  char hex[600]; for (int i = 0; i < n; i++) sprintf(hex + 2 * i, "%02x", b[i]); hex[2 * n] = 0;
  LOG("p %d answer %s %d\n", id, n ? hex : "-", eof);
  close(fd);
  return NULL;
}
static const char* rti_argv[24]; static int rti_argc;
static void* rti_thread(void* x) {
  int r = rti_main(rti_argc, rti_argv);
  LOG("X %d\n", r);
  return NULL;
}
static int64_t horizon;
static int done_all;
static void* watch(void* x) {
  while (vt_now() < horizon && !done_all) vt_sleep_until(vt_now() + 10000000000LL);
  if (!done_all) vt_die(47, "STUCK: the federation has not ended");
  return NULL;
}
static void at_end(void) { LOG("E\n"); flush_out(); }

static int run_program(void) {
  vt_config_t c = {0};
  c.seed = rd(); c.policy = rd(); c.sync_period = rd(); c.mem_period = rd(); c.pct_points = rd(); c.tick = rd(); c.spurious = rd();
  c.start = 1600000000000000000LL; base_t = c.start;
  net_cfg.frag = rd(); net_cfg.shortw = rd(); net_cfg.intr = rd(); net_cfg.lat = rd(); net_cfg.stall = rd();
  vt_on_die = on_die; net_on_write = on_write;
  for (int i = 0; i < 2048; i++) conn_fed[i] = -1;
  static char args[24][64];
  int na = rd();
  rti_argv[rti_argc++] = "RTI";
  for (int i = 0; i < na; i++) { if (fscanf(fin, "%63s", args[i]) != 1) BAD("args\n"); rti_argv[rti_argc++] = args[i]; } for (int i = 1; i < rti_argc; i++) if (!strcmp(rti_argv[i], "-a")) use_auth = 1;
  if (fscanf(fin, "%299s", fid) != 1) BAD("fid\n");
  timeout_ns = rd(); adv_ns = rd(); ltc_all = rd(); all_leave = rd(); horizon = base_t + rd();
  nF = rd();
  for (int i = 0; i < nF; i++) {
    fed_t* f = &F[i]; f->id = i; f->fd = -1; f->rng = rd() | 1;
    f->connect_at = rd(); f->skew = rd(); f->exec_ns = rd(); f->fast = rd(); f->phys = rd(); f->self_pm = rd(); f->nself = rd(); f->selfmax = rd();
    f->stop_at = rd(); f->stop2 = rd(); f->leave_at = rd(); f->leave_kind = rd(); f->udp = rd(); f->addr = rd();
    f->nloc = rd(); f->loc = calloc(f->nloc + 1, 8); for (int k = 0; k < f->nloc; k++) f->loc[k] = rd();
    f->nphys = rd(); f->physt = calloc(f->nphys + 1, 8); for (int k = 0; k < f->nphys; k++) f->physt[k] = rd();
    f->nup = rd(); for (int k = 0; k < f->nup; k++) { f->up[k] = rd(); f->upd[k] = rd(); }
    f->ndown = rd(); for (int k = 0; k < f->ndown; k++) f->down[k] = rd();
  }
  nC = rd(); C = calloc(nC + 1, sizeof(conn_t));
  for (int i = 0; i < nC; i++) { conn_t* k = &C[i]; k->src = rd(); k->dst = rd(); k->port = rd(); k->delay = rd(); k->level = rd(); k->zdc = rd(); k->absent = rd(); k->pm = rd(); k->szmax = rd(); }
  nP = rd();
  for (int i = 0; i < nP; i++) {
    P[i].at = rd(); P[i].mode = rd(); P[i].n = rd();
    for (int k = 0; k < P[i].n; k++) { P[i].s[k].pause = rd(); P[i].s[k].len = rd(); P[i].s[k].b = malloc(P[i].s[k].len + 1); for (int j = 0; j < P[i].s[k].len; j++) P[i].s[k].b[j] = rd(); }
  }
  vt_init(&c);
  atexit(at_end);
  pthread_t r, w;
  pthread_create(&r, NULL, rti_thread, NULL);
  pthread_create(&w, NULL, watch, NULL);
  vt_sleep_until(vt_now() + 1000000);
  for (int i = 0; i < nF; i++) pthread_create(&F[i].th, NULL, fed_main, &F[i]);
  for (int i = 0; i < nP; i++) pthread_create(&P[i].th, NULL, peer_main, &P[i]);
  for (int i = 0; i < nF; i++) pthread_join(F[i].th, NULL);
  for (int i = 0; i < nP; i++) pthread_join(P[i].th, NULL);
  LOG("d\n");
  pthread_join(r, NULL);
  done_all = 1;
  flush_out();
  LOG("E\n"); flush_out();
  _exit(0);
}
static void readn(char* p, size_t n) { size_t o = 0; while (o < n) { ssize_t k = read(0, p + o, n - o); if (k <= 0) _exit(0); o += k; } }
static void on_prof(int s) { _exit(124); }
#undef main
int main(int argc, char** argv) {
  if (argc > 1) { fin = fopen(argv[1], "r"); if (!fin) BAD("cannot open %s\n", argv[1]); out_fd = dup(1); dup2(2, 1); return run_program(); }
  static char errbuf[6001], buf[1 << 22], obuf[8192];
  setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
  for (;;) {
    char hd[17]; readn(hd, 16); hd[16] = 0;
    size_t n = strtoul(hd, NULL, 10);
    if (n >= sizeof buf) BAD("program too long\n");
    readn(buf, n); buf[n] = 0;
    char tmpl[] = "/tmp/rxerr.XXXXXX";
    int efd = mkstemp(tmpl); unlink(tmpl);
    pid_t pid = fork();
    if (pid == 0) {
      out_fd = dup(1); dup2(efd, 1); dup2(efd, 2); close(efd);
      int nul = open("/dev/null", 0); dup2(nul, 0);
      struct itimerval it = {{6, 0}, {6, 0}};
      signal(SIGPROF, on_prof);
      setitimer(ITIMER_PROF, &it, NULL);
      alarm(40);
      fin = fmemopen(buf, n, "r");
      exit(run_program());
    }
    int st = 0; struct rusage ru;
    wait4(pid, &st, 0, &ru);
    int code = WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st), el = 0;
    off_t sz = lseek(efd, 0, SEEK_END); off_t from = sz > 6000 ? sz - 6000 : 0;
    if (code) { el = pread(efd, errbuf, 6000, from); if (el < 0) el = 0; }
    close(efd);
    printf("\n@@END %d %d\n", code, el); fwrite(errbuf, 1, el, stdout); fflush(stdout);
  }
}
