// Recorder for calls into user functions and tasks. Compiled WITHOUT instrumentation: what it does
// costs no simulated steps, is never preempted and is invisible to the race detector.
#pragma once
#include <stdint.h>
enum RecFunc { FN_DYN = 0, FN_DYNJAC, FN_COST, FN_COSTGRAD, FN_COSTHESS, FN_CON, FN_CONJAC, FN_TASK, FN_COUNT };
enum RecAct { ACT_NONE = 0, ACT_THROW, ACT_STALL, ACT_NAN, ACT_INDEF, ACT_HUGE, ACT_ALLOC };
#define REC_MAXK 72
#define REC_MAXF 24
#define REC_MAXLOG 60000
struct RecFault { int func, knot; uint32_t lo, hi; int act; int64_t param; };
struct RecEntry { uint8_t tid, func, exit_; uint8_t knot; uint32_t step; };
struct RecCtx {
  uint32_t calls[FN_COUNT][REC_MAXK];
  int16_t active[REC_MAXK];        // user functions of one knot point running now
  int16_t tasks_active;
  int active_total;
  uint64_t total;                  // user function calls
  int overlap_knot;                // a knot point's functions were running concurrently (-1 none)
  int nfaults;
  RecFault f[REC_MAXF];
  uint32_t fired[8];               // by RecAct
  int enabled;                     // faults armed
  int log_on;
  uint32_t nlog;
  int stall_enabled;
  int idle_ok;                     // 0: no user function may run now (after the solve returned)
  int background;                  // number of calls seen while idle_ok == 0
  double max_state, max_control;   // largest norms handed out / in during rollouts
  uint32_t bad_values;             // non-finite dynamics outputs produced
  RecEntry* log;
};
#ifdef __cplusplus
extern "C" {
#endif
void rec_init(struct RecCtx*);
int rec_enter(struct RecCtx*, int func, int knot, int64_t* param, int64_t* stall);
void rec_exit(struct RecCtx*, int func, int knot);
void rec_norms(struct RecCtx*, double xnorm, double unorm);
// Atomic helpers for task bookkeeping (plain memory, invisible to the detector)
void rec_add32(int* p, int v);
int rec_get32(const int* p);
void rec_stamp(uint64_t* p);
void rec_pool_begin(int* stopping, int* after, uint64_t t0, uint64_t s0);
#ifdef __cplusplus
}
#endif
