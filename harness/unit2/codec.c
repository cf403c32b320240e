// Network encodings and RTI addresses. One operation per line; every buffer is allocated exactly, so that AddressSanitizer sees any excess.
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "reactor.h"
#include "reactor_common.h"
#include "environment.h"
#include "util.h"
#include "net_util.h"
#include "federate.h"
extern federation_metadata_t federation_metadata;
#ifdef CODEC_BE
int host_is_big_endian() { return 1; } // instead of the runtime's, which is declared weak
#endif
static void quiet(const char* f, va_list ap) { (void)f; (void)ap; }
static unsigned char* in(char** s, size_t* n) { // x<hex>
  while (**s == ' ') (*s)++;
  (*s)++;
  char* e = *s;
  while (*e != ' ' && *e != '\n' && *e) e++;
  *n = (e - *s) / 2;
  unsigned char* b = malloc(*n);
  for (size_t k = 0; k < *n; k++) { unsigned v; sscanf(*s + 2 * k, "%2x", &v); b[k] = (unsigned char)v; }
  *s = e;
  return b;
}
static FILE* ans;
static void out(unsigned char* b, size_t n) { fprintf(ans, "x"); for (size_t i = 0; i < n; i++) fprintf(ans, "%02x", b[i]); fprintf(ans, " "); }
int main(void) {
  int fd = dup(1);
  ans = fdopen(fd, "w");
  freopen("/dev/null", "w", stdout);
  lf_register_print_function(quiet, 100);
  char* line = NULL;
  size_t cap = 0;
  while (getline(&line, &cap, stdin) > 0) {
    char* s = line;
    while (*s && *s != '\n') {
      char op = *s++;
      size_t n;
      if (op == ' ') continue;
      if (op == 'e') { // encode: value, into a buffer of the exact size filled with 0xa5
        char t = *s++;
        long long v = strtoll(s, &s, 10);
        n = t == '2' ? 2 : t == '8' ? 8 : 4;
        unsigned char* b = malloc(n);
        memset(b, 0xa5, n);
        if (t == '8') encode_int64(v, b); else if (t == '4') encode_int32((int32_t)v, b); else if (t == 'u') encode_uint32((uint32_t)v, b); else encode_uint16((uint16_t)v, b);
        out(b, n);
        free(b);
      } else if (op == 'x') { // extract
        char t = *s++;
        unsigned char* b = in(&s, &n);
        if (t == '8') fprintf(ans, "%lld ", (long long)extract_int64(b)); else if (t == '4') fprintf(ans, "%d ", extract_int32(b));
        else if (t == 'u') fprintf(ans, "%u ", extract_uint32(b)); else fprintf(ans, "%u ", extract_uint16(b));
        free(b);
      } else if (op == 's') { // swap
        char t = *s++;
        long long v = strtoll(s, &s, 10);
        if (t == '8') fprintf(ans, "%lld ", (long long)swap_bytes_if_big_endian_int64(v)); else if (t == '4') fprintf(ans, "%d ", swap_bytes_if_big_endian_int32((int32_t)v));
        else if (t == 'u') fprintf(ans, "%u ", swap_bytes_if_big_endian_uint32((uint32_t)v)); else fprintf(ans, "%u ", swap_bytes_if_big_endian_uint16((uint16_t)v));
      } else if (op == 't') { // tag: encode, then extract
        tag_t g;
        g.time = strtoll(s, &s, 10);
        g.microstep = (microstep_t)strtoul(s, &s, 10);
        unsigned char* b = malloc(12);
        memset(b, 0xa5, 12);
        encode_tag(b, g);
        out(b, 12);
        g = extract_tag(b);
        fprintf(ans, "%lld %u ", (long long)g.time, g.microstep);
        free(b);
      } else if (op == 'h' || op == 'H') { // header, timed header
        unsigned char* b = in(&s, &n);
        uint16_t port, fed;
        size_t len;
        tag_t g = {0, 0};
        if (op == 'h') extract_header(b, &port, &fed, &len); else extract_timed_header(b, &port, &fed, &len, &g);
        fprintf(ans, "%u %u %zu %lld %u ", port, fed, len, (long long)g.time, g.microstep);
        free(b);
      } else if (op == 'a') { // address
        unsigned char* b = in(&s, &n);
        char* a = malloc(n + 1);
        memcpy(a, b, n);
        a[n] = 0;
        free(b);
        rti_addr_info_t* inf = calloc(1, sizeof *inf);
        extract_rti_addr_info(a, inf);
        fprintf(ans, "%d ", inf->has_host || inf->has_port || inf->has_user);
        free(inf);
        federation_metadata.rti_host = NULL;
        federation_metadata.rti_port = -1;
        federation_metadata.rti_user = NULL;
        int r = lf_parse_rti_addr(a);
        fprintf(ans, "%d ", r);
        const char* h = federation_metadata.rti_host; const char* u = federation_metadata.rti_user;
        if (h) out((unsigned char*)h, strlen(h)); else fprintf(ans, "- ");
        fprintf(ans, "%d ", federation_metadata.rti_port);
        if (u) out((unsigned char*)u, strlen(u)); else fprintf(ans, "- ");
        free((void*)h);
        free((void*)u);
        federation_metadata.rti_host = federation_metadata.rti_user = NULL;
        free(a);
      } else fprintf(ans, "? ");
    }
    fprintf(ans, "#0\n");
    fflush(ans);
  }
  return 0;
}
