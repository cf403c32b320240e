// Controlled scheduler + virtual time. See vt.c.
#ifndef VT_H
#define VT_H
#include <stdint.h>
typedef struct {
  uint64_t seed;
  int policy;       // 0: run until blocked, 1: random walk, 2: PCT-like priorities
  int sync_period;  // average number of sync points between preemptions (policy 1)
  int mem_period;   // average number of instrumented memory accesses between preemptions (0: off)
  int pct_points;   // number of priority change points (policy 2)
  int64_t tick;     // virtual nanoseconds added by each reading of the clock
  int spurious;     // 1/spurious chance that a sleeping condition wait wakes spuriously (0: never)
  int64_t start;    // initial virtual time
} vt_config_t;
void vt_init(const vt_config_t* cfg);
int64_t vt_now(void);
void vt_advance(int64_t ns);       // virtual execution time of the calling thread
void vt_sleep_until(int64_t t);    // blocks the calling thread in virtual time
void vt_yield(void);               // a preemption point
void vt_mem(void);                 // a memory-access preemption point
int vt_self(void);
void vt_progress(void);            // the program under test has done something: restart the livelock count
int vt_readings(int64_t* min, int64_t* last); // earliest and last reading of the clock by this thread since the previous call; 0 if none
void vt_raw_lock(void);
uint64_t vt_rand(void);
extern int64_t (*vt_clock_hook)(int64_t raw); // optional distortion of the raw clock
extern int vt_threads_created, vt_threads_joined, vt_switches;
extern volatile int vt_quiet;      // no preemption while non-zero (used while the harness itself works)
void vt_die(int code, const char* msg);
extern void (*vt_on_die)(int code, const char* msg);
#endif
