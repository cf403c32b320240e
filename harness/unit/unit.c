// Runs operation histories, one per input line, on the runtime's data structures and value functions.
// A line is: kind, then decimal numbers. The answer is one line of words.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <unistd.h>
#include "lf_types.h"
#include "tag.h"
#include "pqueue.h"
#include "pqueue_tag.h"
#include "vector.h"
#include "hashset/hashset.h"
#include "hashset/hashset_itr.h"
#include "mixed_radix.h"
#include "../util/deque.h"
#include "impl/pointer_hashmap.h"

long live_blocks = 0;
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
void* __wrap_malloc(size_t n) {
  live_blocks++;
  return __real_malloc(n);
}
void* __wrap_calloc(size_t n, size_t m) {
  live_blocks++;
  return __real_calloc(n, m);
}
void* __wrap_realloc(void* p, size_t n) {
  if (p == NULL) live_blocks++;
  void* q = __real_realloc(p, n);
  return q;
}
void __wrap_free(void* p) {
  if (p) live_blocks--;
  __real_free(p);
}

static int64_t* A;
static size_t nA, pA;
static int64_t arg(void) {
  if (pA >= nA) {
    fprintf(stderr, "HARNESS: argument missing\n");
    _exit(77);
  }
  return A[pA++];
}
#define more() (pA < nA)
static void out(int64_t v) { printf("%lld ", (long long)v); }
static tag_t argtag(void) {
  tag_t t;
  t.time = arg();
  t.microstep = (microstep_t)arg();
  return t;
}
static void outtag(tag_t t) { printf("%lld %u ", (long long)t.time, t.microstep); }

#define NE 512
///////////////// reaction queue
static void run_pq(void) {
  static reaction_t* E = NULL;
  if (!E) E = __real_calloc(NE, sizeof(reaction_t));
  pqueue_t* q[2];
  for (int i = 0; i < 2; i++)
    q[i] = pqueue_init((size_t)arg(), in_reverse_order, get_reaction_index, get_reaction_position, set_reaction_position,
                       reaction_matches, print_reaction);
  while (more()) {
    int op = (int)arg();
    if (op == 6) {
      int d = (int)arg();
      pqueue_empty_into(&q[d], &q[1 - d]);
      out(0);
    } else {
      pqueue_t* p = q[arg()];
      if (op == 0) {
        int id = (int)arg();
        E[id].index = (index_t)arg();
        out(pqueue_insert(p, &E[id]));
      } else if (op == 1) {
        reaction_t* r = pqueue_pop(p);
        out(r ? r - E : -1);
      } else if (op == 2) {
        reaction_t* r = pqueue_peek(p);
        out(r ? r - E : -1);
      } else if (op == 3) {
        out(pqueue_remove(p, &E[arg()]));
      } else if (op == 4) {
        reaction_t k;
        memset(&k, 0, sizeof k);
        k.index = (index_t)arg();
        reaction_t* r = pqueue_find_same_priority(p, &k);
        out(r ? r - E : -1);
      } else if (op == 5) {
        reaction_t* r = pqueue_find_equal_same_priority(p, &E[arg()]);
        out(r ? r - E : -1);
      }
    }
    out(pqueue_size(q[0]));
    out(pqueue_size(q[1]));
    out(pqueue_is_valid(q[0]) && pqueue_is_valid(q[1]));
  }
  for (int i = 0; i < 2; i++) {
    reaction_t* r;
    while ((r = pqueue_pop(q[i]))) out(r - E);
    out(-1);
    pqueue_free(q[i]);
  }
}

///////////////// tag queue
typedef struct {
  pqueue_tag_element_t base;
  int payload;
} elem_t;
static int elem_match(void* a, void* b) { return ((elem_t*)a)->payload == ((elem_t*)b)->payload; }
static void elem_print(void* a) { (void)a; }
static elem_t PE[NE];
static int64_t elem_id(pqueue_tag_element_t* e) {
  if (e == NULL) return -1;
  if ((char*)e >= (char*)PE && (char*)e < (char*)(PE + NE)) return (elem_t*)e - PE;
  return -2;
}
static void run_ptag(void) {
  int custom = (int)arg();
  size_t n = (size_t)arg();
  pqueue_tag_t* q = (custom & 1) ? pqueue_tag_init_customize(n, pqueue_tag_compare, elem_match, elem_print) : pqueue_tag_init(n);
  while (more()) {
    int op = (int)arg();
    if (op == 0) {
      int id = (int)arg();
      PE[id].base.tag = argtag();
      PE[id].base.is_dynamic = 0;
      PE[id].payload = (int)arg();
      out(pqueue_tag_insert(q, &PE[id].base));
    } else if (op == 1) {
      out(pqueue_tag_insert_tag(q, argtag()));
    } else if (op == 2) {
      out(pqueue_tag_insert_if_no_match(q, argtag()));
    } else if (op == 3) {
      pqueue_tag_element_t* e = pqueue_tag_find_with_tag(q, argtag());
      out(elem_id(e));
      outtag(e ? e->tag : ZERO_TAG);
    } else if (op == 4) {   // find equal with the same tag
      elem_t k;
      memset(&k, 0, sizeof k);
      k.base.tag = argtag();
      k.payload = (int)arg();
      pqueue_tag_element_t* e = pqueue_tag_find_equal_same_tag(q, &k.base);
      out(elem_id(e));
      outtag(e ? e->tag : ZERO_TAG);
    } else if (op == 5) {
      pqueue_tag_element_t* e = pqueue_tag_peek(q);
      out(elem_id(e));
      outtag(e ? e->tag : ZERO_TAG);
      outtag(pqueue_tag_peek_tag(q));
    } else if (op == 6) {
      pqueue_tag_element_t* e = pqueue_tag_pop(q);
      out(elem_id(e));
      outtag(e ? e->tag : ZERO_TAG);
      if (e && e->is_dynamic) free(e);
    } else if (op == 7) {
      out(elem_id(pqueue_tag_peek(q)));
      outtag(pqueue_tag_pop_tag(q));
    } else if (op == 8) {
      pqueue_tag_remove(q, &PE[arg()].base);
      out(0);
    } else if (op == 9) {
      pqueue_tag_remove_up_to(q, argtag());
      out(0);
    } else if (op == 10) {   // remove through find
      pqueue_tag_element_t* e = pqueue_tag_find_with_tag(q, argtag());
      out(elem_id(e));
      if (e) {
        pqueue_tag_remove(q, e);
        if (e->is_dynamic) free(e);
      }
    }
    out(pqueue_tag_size(q));
    out(pqueue_is_valid((pqueue_t*)q));
  }
  // Half of the histories drain, the others leave the rest to pqueue_tag_free.
  if (custom < 2) {
    while (pqueue_tag_size(q) > 0) {
      pqueue_tag_element_t* e = pqueue_tag_pop(q);
      out(elem_id(e));
      outtag(e->tag);
      if (e->is_dynamic) free(e);
    }
  }
  pqueue_tag_free(q);
}

///////////////// hash set
static void run_set(void) {
  hashset_t s = hashset_create((unsigned short)arg());
  while (more()) {
    int op = (int)arg();
    if (op == 0)
      out(hashset_add(s, (void*)(uintptr_t)arg()));
    else if (op == 1)
      out(hashset_remove(s, (void*)(uintptr_t)arg()));
    else if (op == 2)
      out(hashset_is_member(s, (void*)(uintptr_t)arg()) != 0);
    else if (op == 3) {
      hashset_itr_t it = hashset_iterator(s);
      int n = 0, k = 0;
      printf("[ ");
      for (;;) {
        int hn = hashset_iterator_has_next(it);
        int nx = hashset_iterator_next(it);
        if (hn != (nx >= 0)) printf("has_next%d/%d ", hn, nx);
        if (nx < 0) break;
        out((int64_t)(uintptr_t)hashset_iterator_value(it));
        if (++n > 1000000) break;
      }
      (void)k;
      printf("] ");
      free(it);
    }
    out(hashset_num_items(s));
  }
  hashset_destroy(s);
}

///////////////// hash map
static void run_map(void) {
  size_t cap = (size_t)arg();
  hashmap_object2int_t* m = hashmap_object2int_new(cap, (void*)(uintptr_t)arg());
  while (more()) {
    int op = (int)arg();
    void* k = (void*)(uintptr_t)arg();
    if (op == 0) {
      hashmap_object2int_put(m, k, (int)arg());
      out(0);
    } else
      out(hashmap_object2int_get(m, k));
  }
  hashmap_object2int_free(m);
}

///////////////// vector
static void run_vec(void) {
  vector_t v = vector_new((size_t)arg());
  while (more()) {
    int op = (int)arg();
    if (op == 0) {
      vector_push(&v, (void*)(uintptr_t)arg());
      out(0);
    } else if (op == 1) {
      size_t n = (size_t)arg();
      void** a = __real_malloc(n * sizeof(void*) + 1);
      for (size_t i = 0; i < n; i++) a[i] = (void*)(uintptr_t)arg();
      vector_pushall(&v, a, n);
      __real_free(a);
      out(0);
    } else if (op == 2) {
      out((int64_t)(uintptr_t)vector_pop(&v));
    } else if (op == 3) {
      out((int64_t)(uintptr_t)*vector_at(&v, (size_t)arg()));
    } else if (op == 4) {
      size_t i = (size_t)arg();
      *vector_at(&v, i) = (void*)(uintptr_t)arg();
      out(0);
    } else if (op == 5) {
      vector_vote(&v);
      out(0);
    }
    out(vector_size(&v));
  }
  size_t n = vector_size(&v);
  for (size_t i = 0; i < n; i++) out((int64_t)(uintptr_t)v.start[i]);
  vector_free(&v);
}

///////////////// deque
static void run_deq(void) {
  deque_t d;
  deque_t* p = &d;
  if (arg()) {
    memset(p, 0xa5, sizeof d);
    deque_initialize(p);
  } else
    p = calloc(1, sizeof(deque_t));
  while (more()) {
    int op = (int)arg();
    if (op == 0) {
      deque_push_front(p, (void*)(uintptr_t)arg());
      out(0);
    } else if (op == 1) {
      deque_push_back(p, (void*)(uintptr_t)arg());
      out(0);
    } else if (op == 2)
      out((int64_t)(uintptr_t)deque_pop_front(p));
    else if (op == 3)
      out((int64_t)(uintptr_t)deque_pop_back(p));
    else if (op == 4)
      out((int64_t)(uintptr_t)deque_peek_front(p));
    else if (op == 5)
      out((int64_t)(uintptr_t)deque_peek_back(p));
    out(deque_size(p));
    out(deque_is_empty(p));
  }
  while (!deque_is_empty(p)) out((int64_t)(uintptr_t)deque_pop_front(p));
  if (p != &d) free(p);
}

///////////////// tags
static void run_tag(void) {
  while (more()) {
    int op = (int)arg();
    if (op == 0) {
      tag_t a = argtag(), b = argtag();
      out(lf_tag_compare(a, b));
    } else if (op == 1) {
      instant_t a = arg();
      out(lf_time_add(a, arg()));
    } else if (op == 2) {
      tag_t a = argtag(), b = argtag();
      outtag(lf_tag_add(a, b));
    } else if (op == 3) {
      tag_t a = argtag();
      outtag(lf_delay_tag(a, arg()));
    } else if (op == 4) {
      tag_t a = argtag();
      outtag(lf_delay_strict(a, arg()));
    }
    printf("; ");
  }
}

///////////////// formatting
static void run_fmt(void) {
  while (more()) {
    int64_t t = arg();
    char* b = __real_malloc(LF_TIME_BUFFER_LENGTH);
    memset(b, 'Z', LF_TIME_BUFFER_LENGTH);
    size_t n = lf_readable_time(b, t);
    printf("%zu|%.64s|", n, b);
    __real_free(b);
    size_t m = sizeof("-9,223,372,036,854,775,808");
    b = __real_malloc(m);
    memset(b, 'Z', m);
    n = lf_comma_separated_time(b, t);
    printf("%zu|%.30s|", n, b);
    __real_free(b);
  }
}

///////////////// mixed radix
static void run_mr(void) {
  int n = (int)arg();
  int *d = malloc(n * sizeof(int)), *r = malloc(n * sizeof(int)), *p = malloc(n * sizeof(int));
  for (int i = 0; i < n; i++) d[i] = (int)arg();
  for (int i = 0; i < n; i++) r[i] = (int)arg();
  for (int i = 0; i < n; i++) p[i] = (int)arg();
  mixed_radix_int_t m = {n, d, r, p};
  int steps = (int)arg(), drop = (int)arg();
  for (int i = 0; i <= steps; i++) {
    out(mixed_radix_to_int(&m));
    out(mixed_radix_parent(&m, drop));
    for (int k = 0; k < n; k++) out(d[k]);
    mixed_radix_incr(&m);
  }
  for (int i = 0; i < n; i++) printf("%d %d ", r[i], p[i]);
  free(d);
  free(r);
  free(p);
}

int main(void) {
  char* line = NULL;
  size_t cap = 0;
  size_t capA = 0;
  char* obuf = __real_malloc(1 << 16);
  setvbuf(stdout, obuf, _IOFBF, 1 << 16);
  while (getline(&line, &cap, stdin) > 0) {
    char kind = line[0];
    char* s = line + 1;
    nA = pA = 0;
    for (;;) {
      char* e;
      while (*s == ' ') s++;
      if (*s == '\n' || *s == 0) break;
      int64_t v = *s == '-' ? strtoll(s, &e, 10) : (int64_t)strtoull(s, &e, 10);
      if (nA == capA) A = __real_realloc(A, (capA = capA * 2 + 1024) * sizeof(int64_t));
      A[nA++] = v;
      s = e;
    }
    long before = live_blocks;
    switch (kind) {
    case 'P': run_pq(); break;
    case 'T': run_ptag(); break;
    case 'S': run_set(); break;
    case 'M': run_map(); break;
    case 'V': run_vec(); break;
    case 'D': run_deq(); break;
    case 't': run_tag(); break;
    case 'f': run_fmt(); break;
    case 'r': run_mr(); break;
    }
    printf("# %ld\n", live_blocks - before);
    fflush(stdout);
  }
  return 0;
}
