// In-memory streams and datagrams in place of the socket calls (intercepted with the linker's --wrap), under the virtual
// scheduler and the virtual time of vt.c. Streams deliver bytes in order, whole, after a random delay and in random
// portions; reads and writes may be cut short, be interrupted or time out (SO_RCVTIMEO), as POSIX permits.
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <errno.h>
#include <netinet/in.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <netdb.h>
#include "../rx/vt.h"
#include "net.h"

net_config_t net_cfg;
void (*net_on_write)(int, int, const unsigned char*, size_t) = 0;

ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
int __real_close(int);
int __real_socket(int, int, int);

#define MAXFD 512
#define MAXP 1024
#define MAXSEG 4096
typedef struct { int64_t avail; size_t n; } seg_t;
typedef struct {           // one direction of a stream
  unsigned char* b; size_t head, len, cap;
  seg_t seg[MAXSEG]; int s0, ns;
  int64_t last_avail;
  int eof; int64_t eof_at; // the writer has shut down
  int reset;               // the reader has gone: writes fail once this is noticed
  int noticed;
  int reset_in;            // the connection was reset by the writer: reads fail after the reset
} pipe_t;
typedef struct { int64_t avail; int n; unsigned char d[600]; struct sockaddr_in from; } dgram_t;
typedef struct {
  int used, type;          // 1 stream, 2 listener, 3 datagram, 4 fresh stream socket
  pipe_t *in, *out;
  int conn, dir, rd_shut, wr_shut;
  int64_t rcvto;
  uint16_t port; uint32_t addr;
  int backlog[64], nb;     // descriptors waiting to be accepted
  int shut;
  dgram_t* q; int nq;
  int peer;                // port connected to
  uint16_t peer_port;
} sock_t;
static sock_t S[MAXFD];
static int gen[MAXFD]; // uses of each descriptor so far
static int nconn = 0;
static uint16_t ephemeral = 40000;
static pthread_mutex_t NM = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t NC = PTHREAD_COND_INITIALIZER; // anything has changed
static int64_t lat(void) { return net_cfg.lat > 0 ? (vt_rand() % 3 ? (int64_t)(vt_rand() % (uint64_t)(net_cfg.lat / 16 + 1)) : (int64_t)(vt_rand() % (uint64_t)(net_cfg.lat + 1))) : 0; }
static int one_in(int k) { return k > 0 && vt_rand() % (uint64_t)k == 0; }
static void lock(void) { pthread_mutex_lock(&NM); }
static void unlock(void) { pthread_mutex_unlock(&NM); }
static void changed(void) { pthread_cond_broadcast(&NC); }
static void wait_until(int64_t t) { // with the lock held
  if (t == INT64_MAX) { pthread_cond_wait(&NC, &NM); return; }
  struct timespec ts = {t / 1000000000LL, t % 1000000000LL};
  pthread_cond_timedwait(&NC, &NM, &ts);
}
static int newfd(int type) { // the lowest free descriptor, as the system does
  for (int i = 0; i < MAXFD; i++) if (!S[i].used) {
    memset(&S[i], 0, sizeof S[i]);
    S[i].used = 1; S[i].type = type; S[i].conn = -1; gen[i]++;
    return i + NET_BASE;
  }
  errno = EMFILE; return -1;
}
static sock_t* sk(int fd) {
  int i = fd - NET_BASE;
  if (i < 0 || i >= MAXFD || !S[i].used) { errno = EBADF; return NULL; }
  return &S[i];
}
int net_is_open(int fd) { int i = fd - NET_BASE; return i >= 0 && i < MAXFD && S[i].used; }
int net_conn(int fd) { int i = fd - NET_BASE; return i >= 0 && i < MAXFD && S[i].used ? S[i].conn : -1; }
int net_open_fds(void) { int n = 0; for (int i = 0; i < MAXFD; i++) n += S[i].used; return n; }

static int64_t ready_at(pipe_t* p) { // when the next byte, end of file or error can be read; INT64_MAX if unknown
  if (p->ns) return p->seg[p->s0].avail; // what has been sent before a reset can still be read (as on Linux)
  if (p->reset_in) return p->eof_at;
  if (p->eof) return p->eof_at;
  return INT64_MAX;
}
static void push(pipe_t* p, const unsigned char* d, size_t n) {
  if (p->head + p->len + n > p->cap) {
    if (p->len) memmove(p->b, p->b + p->head, p->len); p->head = 0;
    if (p->len + n > p->cap) { p->cap = (p->len + n) * 2 + 4096; p->b = realloc(p->b, p->cap); }
  }
  memcpy(p->b + p->head + p->len, d, n); p->len += n;
  int64_t t = vt_now() + lat();
  if (t < p->last_avail) t = p->last_avail;
  p->last_avail = t;
  if (p->ns == MAXSEG) { p->seg[(p->s0 + p->ns - 1) % MAXSEG].n += n; p->seg[(p->s0 + p->ns - 1) % MAXSEG].avail = t; }
  else { seg_t* s = &p->seg[(p->s0 + p->ns++) % MAXSEG]; s->avail = t; s->n = n; }
}
static void set_eof(pipe_t* p) {
  if (p->eof) return;
  p->eof = 1;
  int64_t t = vt_now() + lat();
  p->eof_at = t < p->last_avail ? p->last_avail : t;
}

int __wrap_socket(int dom, int type, int proto) {
  (void)dom; (void)proto;
  if (!vt_self() && 0) return -1;
  lock(); int fd = newfd((type & 0xf) == SOCK_DGRAM ? 3 : 4);
  if (fd >= 0 && S[fd - NET_BASE].type == 3) S[fd - NET_BASE].q = calloc(64, sizeof(dgram_t));
  unlock(); return fd;
}
int __wrap_setsockopt(int fd, int level, int name, const void* v, socklen_t n) {
  lock(); sock_t* s = sk(fd); int r = -1;
  if (s) {
    r = 0;
    if (level == SOL_SOCKET && name == SO_RCVTIMEO && n >= sizeof(struct timeval)) {
      const struct timeval* tv = v; s->rcvto = tv->tv_sec * 1000000000LL + tv->tv_usec * 1000LL;
    }
  }
  unlock(); return r;
}
int __wrap_bind(int fd, const struct sockaddr* a, socklen_t n) {
  (void)n; lock(); sock_t* s = sk(fd); int r = -1;
  if (s) {
    uint16_t port = ntohs(((const struct sockaddr_in*)a)->sin_port);
    if (port == 0) port = ++ephemeral;
    r = 0;
    for (int i = 0; i < MAXFD; i++) if (S[i].used && &S[i] != s && S[i].port == port && (S[i].type == 3) == (s->type == 3) && S[i].type != 1) { errno = EADDRINUSE; r = -1; }
    if (!r) s->port = port;
  }
  unlock(); return r;
}
int __wrap_listen(int fd, int n) { (void)n; lock(); sock_t* s = sk(fd); int r = -1; if (s) { s->type = 2; r = 0; } unlock(); return r; }
int __wrap_getsockname(int fd, struct sockaddr* a, socklen_t* n) {
  lock(); sock_t* s = sk(fd); int r = -1;
  if (s) { struct sockaddr_in* q = (void*)a; memset(q, 0, sizeof *q); q->sin_family = AF_INET; q->sin_port = htons(s->port); q->sin_addr.s_addr = htonl(0x7f000001); *n = sizeof *q; r = 0; }
  unlock(); return r;
}
int __wrap_getpeername(int fd, struct sockaddr* a, socklen_t* n) { return __wrap_getsockname(fd, a, n); }
int __wrap_connect(int fd, const struct sockaddr* a, socklen_t n) {
  (void)n; lock(); sock_t* s = sk(fd); int r = -1;
  if (s) {
    uint16_t port = ntohs(((const struct sockaddr_in*)a)->sin_port);
    if (s->type == 3) { s->peer_port = port; unlock(); return 0; }
    int l = -1;
    for (int i = 0; i < MAXFD; i++) if (S[i].used && S[i].type == 2 && S[i].port == port && !S[i].shut) l = i;
    if (l < 0 || S[l].nb == 64) errno = ECONNREFUSED;
    else {
      int o = newfd(1);
      pipe_t *p = calloc(1, sizeof(pipe_t)), *q = calloc(1, sizeof(pipe_t));
      int c = nconn++;
      sock_t* t = &S[o - NET_BASE];
      s->type = 1; s->in = p; s->out = q; s->conn = c; s->dir = 0; s->port = ++ephemeral;
      t->in = q; t->out = p; t->conn = c; t->dir = 1; t->rcvto = S[l].rcvto; t->port = S[l].port; t->peer_port = s->port;
      S[l].backlog[S[l].nb++] = o;
      changed(); r = 0;
    }
  }
  unlock(); return r;
}
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* n) {
  lock(); sock_t* s = sk(fd); int r = -1;
  if (s) {
    int64_t end = s->rcvto ? vt_now() + s->rcvto : INT64_MAX;
    for (;;) {
      if (!s->used || s->type != 2 || s->shut) { errno = EINVAL; break; }
      if (s->nb) {
        r = s->backlog[0]; memmove(s->backlog, s->backlog + 1, --s->nb * sizeof(int));
        struct sockaddr_in* q = (void*)a;
        if (q) { memset(q, 0, sizeof *q); q->sin_family = AF_INET; q->sin_port = htons(S[r - NET_BASE].peer_port); q->sin_addr.s_addr = htonl(0x7f000001); *n = sizeof *q; }
        break;
      }
      if (vt_now() >= end) { errno = EAGAIN; break; }
      wait_until(end);
    }
  }
  unlock(); return r;
}
static ssize_t take(pipe_t* p, unsigned char* b, size_t n, int peek) {
  size_t have = 0; // bytes that have arrived
  for (int i = 0; i < p->ns && p->seg[(p->s0 + i) % MAXSEG].avail <= vt_now(); i++) have += p->seg[(p->s0 + i) % MAXSEG].n;
  if (n > have) n = have;
  if (!peek && n > 1 && one_in(net_cfg.frag)) n = 1 + vt_rand() % n;
  memcpy(b, p->b + p->head, n);
  if (peek) return n;
  p->head += n; p->len -= n;
  size_t k = n;
  while (k) {
    seg_t* s = &p->seg[p->s0];
    size_t m = s->n < k ? s->n : k;
    s->n -= m; k -= m;
    if (!s->n) { p->s0 = (p->s0 + 1) % MAXSEG; p->ns--; }
  }
  return n;
}
static ssize_t do_read(int fd, void* b, size_t n, int flags) {
  lock(); sock_t* s = sk(fd); ssize_t r = -1;
  if (!s) { unlock(); return -1; }
  int64_t end = s->rcvto ? vt_now() + s->rcvto : INT64_MAX;
  if (s->type == 3) {
    for (;;) {
      if (!s->used) { errno = EBADF; break; }
      if (s->shut) { r = 0; break; }
      int best = -1;
      for (int i = 0; i < s->nq; i++) if (best < 0 || s->q[i].avail < s->q[best].avail) best = i;
      if (best >= 0 && s->q[best].avail <= vt_now()) {
        size_t k = s->q[best].n < (int)n ? s->q[best].n : n;
        memcpy(b, s->q[best].d, k); s->q[best] = s->q[--s->nq]; r = k; break;
      }
      if (vt_now() >= end) { errno = EAGAIN; break; }
      int64_t w = best >= 0 ? s->q[best].avail : INT64_MAX;
      wait_until(w < end ? w : end);
    }
    unlock(); return r;
  }
  if (s->type != 1) { errno = ENOTCONN; unlock(); return -1; }
  pipe_t* p = s->in; int g = gen[fd - NET_BASE];
  if (n == 0) { unlock(); return 0; }
  if (one_in(net_cfg.intr)) { errno = vt_rand() % 2 ? EINTR : EAGAIN; unlock(); return -1; }
  for (;;) {
    if (gen[fd - NET_BASE] == g && s->rd_shut && !p->ns) { r = 0; break; }
    if (p->reset_in && !p->ns && vt_now() >= p->eof_at) { errno = ECONNRESET; p->reset_in = 0; p->eof = 1; p->ns = 0; p->len = 0; break; }
    int64_t t = ready_at(p);
    if (t <= vt_now()) {
      r = p->ns ? take(p, b, n, flags & MSG_PEEK) : 0;
      break;
    }
    if ((flags & MSG_DONTWAIT) || vt_now() >= end) { errno = EAGAIN; break; }
    wait_until(t < end ? t : end);
  }
  unlock(); return r;
}
int net_wait_readable(int fd, int64_t deadline) {
  lock(); sock_t* s = sk(fd); int r = 1;
  if (s && s->type == 1) for (;;) {
    if (s->rd_shut) break;
    int64_t t = ready_at(s->in);
    if (t <= vt_now()) break;
    if (vt_now() >= deadline) { r = 0; break; }
    wait_until(t < deadline ? t : deadline);
  }
  unlock(); return r;
}
ssize_t __wrap_read(int fd, void* b, size_t n) { return fd < NET_BASE && fd >= 0 ? __real_read(fd, b, n) : do_read(fd, b, n, 0); }
ssize_t __wrap_recv(int fd, void* b, size_t n, int fl) { return do_read(fd, b, n, fl); }
ssize_t __wrap_recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l) { (void)a; (void)l; return do_read(fd, b, n, fl); }
static void dg_send(sock_t* s, uint16_t port, const void* b, size_t n) {
  if (n > 600 || one_in(net_cfg.udp_loss)) return;
  for (int i = 0; i < MAXFD; i++) if (S[i].used && S[i].type == 3 && S[i].port == port) {
    int k = 1 + one_in(net_cfg.udp_dup);
    while (k-- && S[i].nq < 64) { dgram_t* d = &S[i].q[S[i].nq++]; d->avail = vt_now() + lat(); d->n = n; memcpy(d->d, b, n); }
    changed();
    return;
  }
}
ssize_t __wrap_sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t l) {
  (void)fl; (void)l; lock(); sock_t* s = sk(fd); ssize_t r = -1;
  if (s) { dg_send(s, ntohs(((const struct sockaddr_in*)a)->sin_port), b, n); r = n; }
  unlock(); return r;
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
  if (fd >= 0 && fd < NET_BASE) return __real_write(fd, b, n);
  static int stalls = 4;
  if (stalls > 0 && one_in(net_cfg.stall)) { stalls--; vt_sleep_until(vt_now() + (int64_t)(vt_rand() % 2500000000u)); }
  lock(); sock_t* s = sk(fd); ssize_t r = -1;
  if (!s) { unlock(); return -1; }
  if (s->type == 3) { dg_send(s, s->peer_port, b, n); unlock(); return n; }
  if (s->type != 1) { errno = EPIPE; unlock(); return -1; }
  pipe_t* p = s->out;
  if (one_in(net_cfg.intr)) { errno = vt_rand() % 2 ? EINTR : EAGAIN; unlock(); return -1; }
  if (s->wr_shut || (p->reset && p->noticed)) errno = EPIPE;
  else if (p->reset && vt_rand() % 2) { p->noticed = 1; errno = vt_rand() % 2 ? ECONNRESET : EPIPE; }
  else if (p->reset) { p->noticed = 1; r = n; } // the first write after the peer has gone succeeds and is lost
  else {
    if (n > 1 && one_in(net_cfg.shortw)) n = 1 + vt_rand() % n;
    push(p, b, n); r = n;
    if (net_on_write) net_on_write(s->conn, s->dir, b, n);
    changed();
  }
  unlock(); return r;
}
ssize_t __wrap_send(int fd, const void* b, size_t n, int fl) { (void)fl; return __wrap_write(fd, b, n); }
int __wrap_shutdown(int fd, int how) {
  lock(); sock_t* s = sk(fd); int r = -1;
  if (s) {
    r = 0;
    if (s->type == 2 || s->type == 3) s->shut = 1;
    else if (s->type == 1) {
      if (how != SHUT_WR) s->rd_shut = 1;
      if (how != SHUT_RD && !s->wr_shut) { s->wr_shut = 1; set_eof(s->out); }
    } else { errno = ENOTCONN; r = -1; }
    changed();
  }
  unlock(); return r;
}
int __wrap_close(int fd) {
  if (fd >= 0 && fd < NET_BASE) return __real_close(fd);
  lock(); sock_t* s = sk(fd); int r = -1;
  if (s) {
    r = 0;
    if (s->type == 1) {
      if (s->in->ns && !s->rd_shut && !s->out->eof) { s->out->reset_in = 1; s->out->eof_at = vt_now() + lat(); } // unread data: the peer sees a reset
      set_eof(s->out);
      s->in->reset = 1;
    }
    if (s->type == 2) for (int i = 0; i < s->nb; i++) { sock_t* q = &S[s->backlog[i] - NET_BASE]; set_eof(q->out); q->in->reset = 1; q->used = 0; }
    s->shut = 1; s->used = 0;
    changed();
  }
  unlock(); return r;
}
int __wrap_fcntl(int fd, int cmd, long arg) { (void)fd; (void)cmd; (void)arg; return 0; }
// Every host is the local one.
struct hostent* __wrap_gethostbyname(const char* name) {
  static struct in_addr ad; static char* list[2]; static struct hostent h;
  ad.s_addr = htonl(0x7f000001); list[0] = (char*)&ad; list[1] = NULL;
  h.h_name = (char*)name; h.h_addrtype = AF_INET; h.h_length = 4; h.h_addr_list = list;
  return &h;
}
int __wrap_getaddrinfo(const char* host, const char* service, const struct addrinfo* hints, struct addrinfo** res) {
  (void)host; (void)hints;
  struct addrinfo* a = calloc(1, sizeof *a + sizeof(struct sockaddr_in));
  struct sockaddr_in* q = (void*)(a + 1);
  q->sin_family = AF_INET; q->sin_port = htons(service ? atoi(service) : 0); q->sin_addr.s_addr = htonl(0x7f000001);
  a->ai_family = AF_INET; a->ai_socktype = SOCK_STREAM; a->ai_addr = (void*)q; a->ai_addrlen = sizeof *q;
  *res = a; return 0;
}
void __wrap_freeaddrinfo(struct addrinfo* a) { free(a); }
void net_dump(void) {
  for (int i = 0; i < MAXFD; i++) if (S[i].used) fprintf(stderr, "NET: fd %d type %d conn %d dir %d port %d in %zu segs %d eof %d\n", i + NET_BASE, S[i].type, S[i].conn, S[i].dir, S[i].port,
                                                     S[i].in ? S[i].in->len : 0, S[i].in ? S[i].in->ns : 0, S[i].in ? S[i].in->eof : 0);
}
