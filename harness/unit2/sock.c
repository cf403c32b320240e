// The functions that move bytes over a socket, against a scripted socket. A line is a history of calls on descriptors 700, 701, ...; every buffer has exact size.
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <setjmp.h>
#include <sys/socket.h>
#include "reactor.h"
#include "reactor_common.h"
#include "environment.h"
#include "util.h"
#include "net_util.h"
#include "federate.h"
#define N 4
#define BASE 700
static void quiet(const char* f, va_list ap) { (void)f; (void)ap; }
static char* s;
static long rd(void) { return strtol(s, &s, 10); }
static FILE* ans;
static unsigned char inb(int f, size_t k) { return (unsigned char)(k * 37 + f * 11 + (k >> 8) * 5 + 1); } // byte k that comes in
static size_t got[N], put[N];
static int bad, isopen[N], shut[N];
static long script[4096];
static int slen, spos, calls;
static char ev[1 << 16];
static size_t evn;
static void note(char c, int fd) { if (evn < sizeof ev - 20) evn += snprintf(ev + evn, 20, "%c%d", c, fd - BASE); }
static int ours(int fd) { return fd >= BASE && fd < BASE + N; }
static long next(void) { calls++; return spos < slen ? script[spos++] : 1L << 40; }
ssize_t __real_read(int, void*, size_t);
ssize_t __wrap_read(int fd, void* b, size_t n) {
  if (!ours(fd)) { if (fd >= 0 && fd < BASE) return __real_read(fd, b, n); errno = EBADF; return -1; }
  if (!isopen[fd - BASE]) { note('c', fd); errno = EBADF; return -1; }
  long k = next();
  if (k < 0) { errno = -k; return -1; }
  if ((size_t)k > n) k = n;
  for (long i = 0; i < k; i++) ((unsigned char*)b)[i] = inb(fd - BASE, got[fd - BASE]++);
  return k;
}
ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_write(int fd, const void* b, size_t n) {
  if (!ours(fd)) { if (fd >= 0 && fd < BASE) return __real_write(fd, b, n); errno = EBADF; return -1; }
  if (!isopen[fd - BASE]) { note('c', fd); errno = EBADF; return -1; }
  long k = next();
  if (k < 0) { errno = -k; return -1; }
  if ((size_t)k > n) k = n;
  for (long i = 0; i < k; i++) if (((const unsigned char*)b)[i] != inb(fd - BASE, put[fd - BASE]++)) bad++;
  return k;
}
ssize_t __wrap_send(int fd, const void* b, size_t n, int f) { (void)f; return __wrap_write(fd, b, n); }
ssize_t __wrap_recv(int fd, void* b, size_t n, int f) {
  if (!ours(fd)) { errno = EBADF; return -1; }
  size_t at = got[fd - BASE];
  if (!(f & MSG_PEEK)) note('t', fd);
  if (!(f & MSG_DONTWAIT)) note('b', fd);
  ssize_t k = __wrap_read(fd, b, n);
  if (f & MSG_PEEK) got[fd - BASE] = at;
  return k;
}
int __wrap_shutdown(int fd, int how) { (void)how; if (ours(fd)) note(ours(fd) && isopen[fd - BASE] ? 's' : 'S', fd); errno = ENOTCONN; return -1; } // the peer is already gone
int __real_close(int);
int __wrap_close(int fd) {
  if (!ours(fd)) { if (fd >= 0 && fd < BASE) return __real_close(fd); return -1; }
  note(isopen[fd - BASE] ? 'x' : 'X', fd);
  isopen[fd - BASE] = 0;
  return 0;
}
static int sleeps;
int __wrap_lf_sleep(interval_t t) { (void)t; sleeps++; errno = 0; return 0; }
static jmp_buf jb;
static int armed;
void __wrap_lf_print_error_system_failure(const char* f, ...) { (void)f; note('f', BASE); if (armed) longjmp(jb, 1); exit(9); }
int main(void) {
  int fd = dup(1);
  ans = fdopen(fd, "w");
  freopen("/dev/null", "w", stdout);
  lf_register_print_function(quiet, 100);
  char* line = NULL;
  size_t cap = 0;
  while (getline(&line, &cap, stdin) > 0) {
    s = line;
    memset(got, 0, sizeof got); memset(put, 0, sizeof put);
    int var[N];
    for (int i = 0; i < N; i++) { isopen[i] = 1; var[i] = BASE + i; }
    lf_mutex_t m;
    lf_mutex_init(&m);
    int ops = rd();
    for (int o = 0; o < ops; o++) {
      int op = rd(), w = rd();
      long n = rd();
      errno = rd(); // left by an earlier call
      int e = errno;
      slen = rd(); spos = calls = sleeps = bad = 0; evn = 0; ev[0] = 0;
      for (int i = 0; i < slen; i++) script[i] = rd();
      unsigned char* b = malloc(op == 2 ? 1 : n);
      if (op == 1 || op == 4 || op == 6) for (long i = 0; i < n; i++) b[i] = inb(w, put[w] + i);
      size_t g0 = got[w];
      long r = 0;
      int locked = 0;
      errno = e;
      if (op == 0) r = read_from_socket(var[w], n, b);
      else if (op == 1) r = write_to_socket(var[w], n, b);
      else if (op == 2) r = peek_from_socket(var[w], b);
      else if (op == 3) r = read_from_socket_close_on_error(&var[w], n, b);
      else if (op == 4) r = write_to_socket_close_on_error(&var[w], n, b);
      else {
        lf_mutex_lock(&m);
        armed = 1;
        if (!setjmp(jb)) {
          if (op == 5) read_from_socket_fail_on_error(&var[w], n, b, &m, "reading %d", 1);
          else write_to_socket_fail_on_error(&var[w], n, b, &m, "writing %d", 1);
        } else r = 1;
        armed = 0;
        locked = m.__data.__count > 0 || m.__data.__lock != 0;
        if (locked) lf_mutex_unlock(&m);
      }
      if (op == 0 || op == 3 || op == 5) for (size_t i = 0; i < got[w] - g0; i++) if (b[i] != inb(w, g0 + i)) bad++;
      if (op == 2 && r > 0 && b[0] != inb(w, g0)) bad++;
      free(b);
      fprintf(ans, "%ld %d %zu %zu %d %d %d %d %s ", r, var[w] < 0 ? -1 : var[w] - BASE, got[w], put[w], calls, bad, locked, sleeps, evn ? ev : "-");
    }
    fprintf(ans, "end\n");
    fflush(ans);
  }
  return 0;
}
