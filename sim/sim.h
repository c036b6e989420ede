// Interface of the deterministic simulator runtime (simrt.cpp).
//
// The code under test and the scenarios are compiled with -fsanitize=thread, but they are linked
// against simrt.cpp instead of libtsan: every memory access, atomic operation, lock, futex,
// condition variable, thread creation, clock read, sleep and allocation enters the simulator,
// which decides from one seed which thread continues, what time it is and what fails.
#pragma once
#include <stddef.h>
#include <stdint.h>

#define SIM_MAX_THREADS 128
#define SIM_MAX_DEV 400000
#define SIM_NFAULT 32
#define SIM_NPROBE 96

#ifdef __cplusplus
extern "C" {
#endif

enum SimOutcome {
  SIM_OK = 0,
  SIM_VIOLATION = 1,   // an oracle, the race detector or the liveness detector failed
  SIM_HARNESS = 2,     // the harness itself is at a limit (never a verdict)
  SIM_RUNNING = 3,     // the child died before it finished (crash, abort, _exit)
};

// Fault kinds, counted when they really fire.
enum SimFault {
  F_STALL = 0, F_THROW, F_NAN, F_DIVERGE, F_INDEFINITE, F_THREAD_CREATE, F_ALLOC, F_WALLCLOCK_JUMP,
  F_SPURIOUS_WAKE, F_CORES, F_FOPEN, F_DISK_FULL, F_STDOUT_FULL, F_TIMEOUT, F_CLOCK_RATE, F_TASK_THROW,
  F_WEAK_CAS, F_FD_EXHAUSTED, F_STARVE, F_PREEMPT, F_ABORTED_SOLVE, F_UNUSED
};

typedef struct SimCfg {
  uint64_t sched_seed;
  // 0: seeded random scheduler; 1: replay the given deviations (and nothing else)
  int replay;
  double mean_credit;     // mean number of steps between preemption points
  double sync_weight;     // how many steps a synchronisation operation counts for
  double idle_factor;     // weight of a spinning thread relative to a working one
  int policy;             // 0 random walk, 1 priorities (PCT-like), 2 starve one thread
  uint64_t tick_ps;       // simulated picoseconds per step
  uint64_t step_cap;
  double spurious;        // probability of a spurious futex / condition variable wake-up
  double weak_cas;        // probability of a spurious weak CAS failure
  double freeze;          // probability that a preempted thread (not the first one) is frozen for freeze_ns
  uint64_t freeze_ns;
  int cores;              // reported number of cores
  int detect_races;
  int verbose;
  int sched_off;          // run without preemption (pure serial default schedule)
} SimCfg;

typedef struct SimDev { uint64_t step; uint32_t tid; uint32_t pad; } SimDev;

typedef struct SimResult {
  volatile int outcome;
  char cls[64];
  char msg[4096];
  uint64_t hash;         // hash over every scheduling decision, event and fault
  uint64_t sched_hash;   // hash over the order of synchronisation operations by thread only
  uint64_t steps, switches, syncops, yields, events, allocs, nsync_edges;
  uint64_t sim_ns;       // simulated time covered
  uint64_t nthreads;
  uint64_t faults[SIM_NFAULT];
  uint64_t probes[SIM_NPROBE];
  uint64_t ndev;
  uint64_t ndev_in;
  uint64_t user[16];     // scenario-defined measurements
  SimDev dev[SIM_MAX_DEV];
} SimResult;

// Runs main_fn(arg) as simulated thread 0 until it returns. Called once per process.
void sim_run(const SimCfg* cfg, const SimDev* devs, uint64_t ndevs, SimResult* res,
             void (*main_fn)(void*), void* arg);

int sim_active(void);
int sim_tid(void);
uint64_t sim_now(void);                       // simulated monotonic time, ns
void sim_sleep(uint64_t ns);                  // simulated sleep (stall)
uint64_t sim_event(uint64_t tag, uint64_t a, uint64_t b);  // returns the global sequence number
uint64_t sim_seq(void);
uint64_t sim_steps(void);
void sim_fault_fired(int kind);
void sim_probe(int id);
void sim_user(int id, uint64_t v);
void sim_ignore(int delta);                   // >0: switch instrumentation and preemption off
void sim_preempt(void);                       // explicit scheduling point
void sim_note(const char* fmt, ...);          // verbose-mode trace line
void sim_violation(const char* cls, const char* fmt, ...) __attribute__((noreturn));
void sim_harness_error(const char* fmt, ...) __attribute__((noreturn));
void sim_wallclock_jump(int64_t ns);          // steps CLOCK_REALTIME
void sim_wallclock_jump_at(uint64_t step, int64_t ns);
void sim_set_tick(uint64_t ps);
void sim_advance(uint64_t ns);
void sim_set_cores(int n);
// Fault arming
void sim_fail_thread_create(int nth);         // the nth pthread_create from now (1-based); 0 off
void sim_fail_alloc(long nth, int tid);       // the nth allocation from now, by thread tid (-1 any); 0 off
long sim_alloc_seen(void);                    // allocations since the last sim_fail_alloc call
int sim_alloc_fired(void);
int sim_live_threads(void);                   // threads created and not yet finished
int sim_threads_total(void);
void sim_suppress_faults(int delta);          // allocation faults off/on (harness code)
void sim_mem_check(int on);                   // race / memory checks on or off
int sim_fclose_stdout_seen(void);
void sim_fail_fopen(int nth);
#ifdef __cplusplus
}
#endif
