// Reads wave files given in hex: "ALT HEX" per line (ALT 1: the file exists only below src-gen). Answers "N" or "LENGTH CHANNELS REST s..." and
// "# blocks fds": REST is the number of nonzero samples beyond those printed.
#include <dirent.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <sys/stat.h>
#include <unistd.h>
#include "wave_file_reader.h"

static long blocks;
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void __real_free(void*);
static int counting;
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (p && counting) blocks++; return p; }
void* __wrap_calloc(size_t n, size_t m) { void* p = __real_calloc(n, m); if (p && counting) blocks++; return p; }
void __wrap_free(void* p) { if (p && counting) blocks--; __real_free(p); }

static int fds(void) {
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  while (readdir(d)) n++;
  closedir(d);
  return n;
}

static int hexv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }

int main(int argc, char** argv) {
  if (chdir(argv[1])) return 3;
  mkdir("src-gen", 0700);
  stderr = fopen("/dev/null", "w");
  char* line = NULL;
  size_t cap = 0;
  ssize_t len;
  while ((len = getline(&line, &cap, stdin)) > 0) {
    int alt = line[0] == '1';
    unlink("x.wav");
    unlink("src-gen/x.wav");
    FILE* f = fopen(alt ? "src-gen/x.wav" : "x.wav", "wb");
    size_t n = 0;
    for (char* p = line + 2; p[0] && p[0] != '\n' && p[1]; p += 2, n++) fputc(hexv(p[0]) * 16 + hexv(p[1]), f);
    if (fclose(f)) return 3;
    if (line[0] == '2') unlink("x.wav");
    int before = fds();
    counting = 1;
    blocks = 0;
    lf_waveform_t* w = read_wave_file("x.wav");
    counting = 0;
    if (!w) {
      printf("N");
    } else {
      uint32_t show = w->length < n / 2 ? w->length : (uint32_t)(n / 2);
      uint32_t rest = 0, lim = w->length < (1u << 22) ? w->length : (1u << 22);
      for (uint32_t i = show; i < lim; i++) rest += w->waveform[i] != 0;
      if (w->length > lim) rest += w->waveform[w->length - 1] != 0;
      printf("%u %u %u %u", w->length, w->num_channels, rest, show);
      for (uint32_t i = 0; i < show; i++) printf(" %d", w->waveform[i]);
      counting = 1;
      free(w->waveform);
      free(w);
      counting = 0;
    }
    printf(" # %ld %d\n", blocks, fds() - before);
    fflush(stdout);
  }
  return 0;
}
