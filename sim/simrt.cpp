// Deterministic simulator runtime. See sim.h. This file is NOT compiled with -fsanitize=thread and
// uses no C++ library code: it is the layer below everything it simulates.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef int64_t i64;

#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define EXPORT extern "C" __attribute__((visibility("default")))

// the runtime itself must never call the instrumented versions
extern "C" void* __real_memcpy(void*, const void*, size_t);
extern "C" void* __real_memmove(void*, const void*, size_t);
extern "C" void* __real_memset(void*, int, size_t);
// ------------------------------------------------------------------ raw system calls
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
static void die_raw(const char* s) {
  raw6(SYS_write, 2, (long)s, (long)strlen(s), 0, 0, 0);
  raw6(SYS_exit_group, 97, 0, 0, 0, 0, 0);
}

// ------------------------------------------------------------------ memory layout
static const u64 ARENA = 0x600000000000ull;
static const u64 HEAP_SZ = 1ull << 30;
static const u64 STACKS = ARENA + HEAP_SZ;
static const u64 STACK_SZ = 1ull << 20;
static const u64 STACKS_SZ = STACK_SZ * SIM_MAX_THREADS;
static const u64 ARENA_END = STACKS + STACKS_SZ;
static const u64 SH_BASE = 0x640000000000ull;   // 4 cells (32 bytes) per 8-byte granule of the arena
static const u64 SY_BASE = 0x680000000000ull;   // sync-variable index (u32) per granule of the arena
static const u64 GL_END = 0x10000000ull;        // globals of the non-PIE executable live below this
static const u64 GSH_BASE = 0x6a0000000000ull;
static const u64 GSY_BASE = 0x6b0000000000ull;

static int g_arena_ready = 0;
static u64 g_bump = ARENA + 4096;
static u64 g_sim_base = ARENA;      // blocks below were allocated before the simulation started
static volatile int g_mlock = 0;

static void map_fixed(u64 at, u64 sz) {
  void* p = mmap((void*)at, sz, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)at) die_raw("simrt: cannot map simulator memory\n");
}
static void arena_init() {
  if (g_arena_ready) return;
  g_arena_ready = 1;
  map_fixed(ARENA, ARENA_END - ARENA);
  map_fixed(SH_BASE, (ARENA_END - ARENA) / 8 * 32);
  map_fixed(SY_BASE, (ARENA_END - ARENA) / 8 * 4);
  map_fixed(GSH_BASE, GL_END / 8 * 32);
  map_fixed(GSY_BASE, GL_END / 8 * 4);
}
static inline u64* shadow_of(u64 addr) {
  if (LIKELY(addr - ARENA < ARENA_END - ARENA)) return (u64*)(SH_BASE + ((addr - ARENA) >> 3) * 32);
  if (addr < GL_END) return (u64*)(GSH_BASE + (addr >> 3) * 32);
  return nullptr;
}
static inline u32* syidx_of(u64 addr) {
  if (LIKELY(addr - ARENA < ARENA_END - ARENA)) return (u32*)(SY_BASE + ((addr - ARENA) >> 3) * 4);
  if (addr < GL_END) return (u32*)(GSY_BASE + (addr >> 3) * 4);
  return nullptr;
}

// ------------------------------------------------------------------ threads and state
enum { ST_UNUSED = 0, ST_RUN, ST_BLOCK, ST_DONE };
enum { W_NONE = 0, W_MUTEX, W_COND, W_FUTEX, W_JOIN, W_SLEEP, W_ONCE, W_RW, W_SEM, W_GUARD };
enum { R_PREEMPT = 0, R_YIELD, R_BLOCK, R_EXIT };

struct Thr {
  int id;
  int state;
  volatile int gate;
  int wait_kind;
  u64 wait_key;
  u64 deadline;      // simulated ns, ~0 = none
  u64 wait_seq;
  int timed_out;
  u64 nyields, yield_base;   // yields in all and at the beginning of the current idle period
  int idle;          // last segment ended in a yield and the thread looks like a spinner
  u64 last_yield_step;
  int ignore;
  int nofault;
  u64 own_steps;
  int detached;
  int joined;
  pthread_t pth;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  void* tls_dtors;
  double weight;
  u64 prio;
  u64 clk;
  u64 vc[SIM_MAX_THREADS];
  int depth;
  u64 cs[64];
};

static Thr g_thr[SIM_MAX_THREADS];
static int g_nthr = 0;
static Thr* volatile g_cur = nullptr;
static int g_on = 0;            // simulation active
static SimCfg g_cfg;
static SimResult* g_res = nullptr;
static SimResult g_dummy;
static const SimDev* g_indev = nullptr;
static u64 g_nindev = 0, g_indev_pos = 0;
static u64 g_steps = 0, g_trigger = ~0ull;
static u64 g_hash = 1469598103934665603ull, g_shash = 1469598103934665603ull;
static u64 g_rng[2];
static u64 g_jump_ns = 0;       // time added by jumps
static u64 g_tick_base_steps = 0, g_tick_base_ns = 0;
static i64 g_wall_off = 0;
static u64 g_wall_jump_step = ~0ull;
static i64 g_wall_jump_ns = 0;
static u64 g_wait_seq = 0;
static u64 g_seq = 0;
static u64 g_idle_rounds = 0;
static u64 g_slice_start = 0;
static int g_mem_check = 1;
static long g_fail_alloc_n = 0, g_alloc_seen = 0;
static int g_fail_alloc_tid = -1, g_alloc_fired = 0;
static int g_fail_thread_n = 0, g_thread_seen = 0;
static int g_fail_fopen_n = 0, g_fopen_seen = 0;
static int g_fclose_stdout = 0;
static u64 g_fence_vc[SIM_MAX_THREADS];
static int g_finished = 0;

static const u32 DEV_COIN = 0x10000;
static const u64 WALL_BASE = 1700000000ull * 1000000000ull;

static inline u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
static u64 splitmix(u64* s) {
  u64 z = (*s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static u64 rnd() {
  u64 s0 = g_rng[0], s1 = g_rng[1], r = s0 + s1;
  s1 ^= s0;
  g_rng[0] = rotl(s0, 24) ^ s1 ^ (s1 << 16);
  g_rng[1] = rotl(s1, 37);
  return r;
}
static double rnd01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
static u64 geometric(double mean) {
  if (mean <= 1) return 1;
  // inverse-transform with a cheap log2 approximation is not exact but deterministic
  double u = rnd01();
  if (u < 1e-12) u = 1e-12;
  // -ln(u) by series on the exponent
  int e = 0;
  while (u < 0.5) { u *= 2; e++; }
  double y = (u - 1) / (u + 1), y2 = y * y;
  double ln = 2 * y * (1 + y2 / 3 + y2 * y2 / 5 + y2 * y2 * y2 / 7) - e * 0.69314718055994531;
  double v = -ln * mean;
  if (v < 1) v = 1;
  if (v > 1e15) v = 1e15;
  return (u64)v;
}
static inline void mixh(u64 v) { g_hash = (g_hash ^ v) * 1099511628211ull; g_hash ^= g_hash >> 29; }
static inline void mixs(u64 v) { g_shash = (g_shash ^ v) * 1099511628211ull; g_shash ^= g_shash >> 31; }

EXPORT int sim_active(void) { return g_on; }
EXPORT int sim_tid(void) { return g_on ? g_cur->id : -1; }
EXPORT u64 sim_steps(void) { return g_steps; }
EXPORT u64 sim_seq(void) { return g_seq; }

static void vnote(const char* fmt, va_list ap) {
  char buf[1024];
  int n = snprintf(buf, sizeof buf, "[%10llu t%d %12.6fs] ", (unsigned long long)g_steps,
                   g_cur ? g_cur->id : -1, sim_now() / 1e9);
  n += vsnprintf(buf + n, sizeof buf - n - 2, fmt, ap);
  if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
  buf[n++] = '\n';
  raw6(SYS_write, 2, (long)buf, n, 0, 0, 0);
}
EXPORT void sim_note(const char* fmt, ...) {
  if (!g_cfg.verbose) return;
  va_list ap;
  va_start(ap, fmt);
  vnote(fmt, ap);
  va_end(ap);
}

static void finish(int outcome) {
  g_finished = 1;
  g_res->hash = g_hash;
  g_res->sched_hash = g_shash;
  g_res->steps = g_steps;
  g_res->sim_ns = sim_now();
  g_res->nthreads = g_nthr;
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
  g_res->outcome = outcome;
  raw6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}
static int put_stack(char* buf, int cap) {
  int n = 0;
  buf[0] = 0;
  Thr* t = g_cur;
  if (!t) return 0;
  int d = t->depth < 64 ? t->depth : 64;
  for (int i = d - 1; i >= 0 && i >= d - 24; --i)
    n += snprintf(buf + n, cap - n, " @0x%llx", (unsigned long long)t->cs[i]);
  return n;
}
EXPORT void sim_violation(const char* cls, const char* fmt, ...) {
  if (g_finished) raw6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
  if (!g_res) { die_raw("simrt: violation outside a run\n"); __builtin_unreachable(); }
  snprintf(g_res->cls, sizeof g_res->cls, "%s", cls);
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(g_res->msg, sizeof g_res->msg - 1200, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof g_res->msg - 1200) n = sizeof g_res->msg - 1200;
  put_stack(g_res->msg + n, sizeof g_res->msg - n - 1);
  finish(SIM_VIOLATION);
  __builtin_unreachable();
}
EXPORT void sim_harness_error(const char* fmt, ...) {
  if (!g_res) g_res = &g_dummy;
  snprintf(g_res->cls, sizeof g_res->cls, "harness");
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(g_res->msg, sizeof g_res->msg, fmt, ap);
  va_end(ap);
  finish(SIM_HARNESS);
  __builtin_unreachable();
}

// ------------------------------------------------------------------ time
EXPORT u64 sim_now(void) {
  if (!g_on && !g_finished) {
    struct timespec ts;
    raw6(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts, 0, 0, 0, 0);
    return (u64)ts.tv_sec * 1000000000ull + ts.tv_nsec;
  }
  unsigned __int128 d = (unsigned __int128)(g_steps - g_tick_base_steps) * g_cfg.tick_ps / 1000;
  return g_tick_base_ns + (u64)d + g_jump_ns;
}
EXPORT void sim_set_tick(u64 ps) {
  u64 n = sim_now() - g_jump_ns;
  g_tick_base_ns = n;
  g_tick_base_steps = g_steps;
  g_cfg.tick_ps = ps;
}
EXPORT void sim_advance(u64 ns) { g_jump_ns += ns; mixh(ns); }
static void do_wall_jump(i64 ns) {
  g_wall_off += ns;
  g_res->faults[F_WALLCLOCK_JUMP]++;
  mixh((u64)ns ^ 0x77);
  sim_note("wall clock jumps by %lld ns", (long long)ns);
}
EXPORT void sim_wallclock_jump(i64 ns) { do_wall_jump(ns); }
EXPORT void sim_wallclock_jump_at(u64 step, i64 ns) {
  if (step <= g_steps + 1) step = g_steps + 2;
  g_wall_jump_step = step;
  g_wall_jump_ns = ns;
  if (g_trigger > step) g_trigger = step;
}

// ------------------------------------------------------------------ events
EXPORT u64 sim_event(u64 tag, u64 a, u64 b) {
  u64 s = ++g_seq;
  if (g_res) g_res->events++;
  mixh(tag * 0x9e3779b97f4a7c15ull ^ a * 31 ^ b * 131 ^ ((u64)(g_cur ? g_cur->id : 0) << 56));
  return s;
}
EXPORT void sim_fault_fired(int k) { if (g_res && k >= 0 && k < SIM_NFAULT) { g_res->faults[k]++; mixh(0xfa00 + k); } }
EXPORT void sim_probe(int id) { if (g_res && id >= 0 && id < SIM_NPROBE) g_res->probes[id]++; }
EXPORT void sim_user(int id, u64 v) { if (g_res && id >= 0 && id < 16) g_res->user[id] = v; }
EXPORT void sim_ignore(int d) { if (g_on) g_cur->ignore += d; }
EXPORT void sim_suppress_faults(int d) { if (g_on) g_cur->nofault += d; }
EXPORT void sim_mem_check(int on) { g_mem_check = on; }
EXPORT void sim_set_cores(int n) { g_cfg.cores = n; }
EXPORT void sim_fail_thread_create(int n) { g_fail_thread_n = n; g_thread_seen = 0; }
EXPORT void sim_fail_alloc(long n, int tid) { g_fail_alloc_n = n; g_alloc_seen = 0; g_fail_alloc_tid = tid; g_alloc_fired = 0; }
EXPORT long sim_alloc_seen(void) { return g_alloc_seen; }
EXPORT int sim_alloc_fired(void) { return g_alloc_fired; }
EXPORT void sim_fail_fopen(int n) { g_fail_fopen_n = n; g_fopen_seen = 0; }
EXPORT int sim_fclose_stdout_seen(void) { return g_fclose_stdout; }
EXPORT int sim_threads_total(void) { return g_nthr; }
EXPORT int sim_live_threads(void) {
  int n = 0;
  for (int i = 0; i < g_nthr; ++i)
    if (g_thr[i].state == ST_RUN || g_thr[i].state == ST_BLOCK) n++;
  return n;
}

// ------------------------------------------------------------------ scheduler
static void gate_wait(Thr* t) {
  while (__atomic_load_n(&t->gate, __ATOMIC_ACQUIRE) == 0)
    raw6(SYS_futex, (long)&t->gate, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
  t->gate = 0;
}
static void gate_open(Thr* t) {
  __atomic_store_n(&t->gate, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)&t->gate, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}

static void next_trigger() {
  if (g_cfg.replay) {
    g_trigger = ~0ull;
    if (g_indev_pos < g_nindev) g_trigger = g_indev[g_indev_pos].step;
    if (g_trigger <= g_steps) g_trigger = g_steps + 1;
  } else if (g_cfg.sched_off) {
    g_trigger = ~0ull;
  } else {
    g_trigger = g_steps + geometric(g_cfg.mean_credit);
  }
  if (g_trigger > g_cfg.step_cap) g_trigger = g_cfg.step_cap;
  if (g_wall_jump_step != ~0ull && g_trigger > g_wall_jump_step) g_trigger = g_wall_jump_step;
}

static void describe_threads(char* buf, int cap) {
  static const char* wk[] = {"-", "mutex", "cond", "futex", "join", "sleep", "once", "rwlock", "sem", "guard"};
  int n = 0;
  for (int i = 0; i < g_nthr && n < cap - 64; ++i) {
    Thr* t = &g_thr[i];
    if (t->state == ST_RUN) n += snprintf(buf + n, cap - n, " t%d:%s", i, t->idle ? "spinning" : "runnable");
    if (t->state == ST_BLOCK) n += snprintf(buf + n, cap - n, " t%d:blocked-on-%s", i, wk[t->wait_kind]);
  }
}

// The idle period starts anew. Time may jump only when every runnable thread has since gone round its waiting loop several times:
// a thread that was preempted on its way through a task looks like a spinning one until it yields again.
static int g_settling = 0;   // every waiting loop is being run to its end, one after the other
static void idle_restart() {
  g_idle_rounds = 0;
  g_settling = 0;
  for (int i = 0; i < g_nthr; ++i) g_thr[i].yield_base = g_thr[i].nyields;
}
static void wake_thr(Thr* t, int timed_out) {
  t->state = ST_RUN;
  t->timed_out = timed_out;
  t->deadline = ~0ull;
  if (t->wait_kind != W_MUTEX) {  // a spinning thread that contends for a lock is still spinning
    t->idle = 0;
    idle_restart();
  }
  t->wait_kind = W_NONE;
}
static u64 min_deadline() {
  u64 d = ~0ull;
  for (int i = 0; i < g_nthr; ++i)
    if (g_thr[i].state == ST_BLOCK && g_thr[i].deadline < d) d = g_thr[i].deadline;
  return d;
}
static void fire_timers() {
  u64 now = sim_now();
  for (int i = 0; i < g_nthr; ++i)
    if (g_thr[i].state == ST_BLOCK && g_thr[i].deadline <= now) wake_thr(&g_thr[i], 1);
}

// A thread that waits for a mutex whose holder itself waits for something else than a mutex moves no sooner than that holder.
static bool mutex_stuck(const Thr* t) {
  for (int n = 0; n <= g_nthr; ++n) {
    if (t->state != ST_BLOCK) return false;
    if (t->wait_kind != W_MUTEX) return true;
    int own = ((const pthread_mutex_t*)t->wait_key)->__data.__lock;
    if (own < 1 || own > g_nthr) return false;
    t = &g_thr[own - 1];
  }
  return true;
}
static Thr* default_choice(int reason) {
  Thr* c = g_cur;
  if (reason == R_PREEMPT) return c;
  for (int pass = 0; pass < 2; ++pass)
    for (int i = 1; i <= g_nthr; ++i) {
      Thr* t = &g_thr[(c->id + i) % g_nthr];
      if (t->state != ST_RUN) continue;
      if (pass == 0 && t->idle) continue;
      return t;
    }
  return nullptr;
}
static Thr* random_choice(int reason) {
  double tot = 0;
  bool any_busy = false;
  for (int i = 0; i < g_nthr; ++i)
    if (g_thr[i].state == ST_RUN && !g_thr[i].idle) any_busy = true;
  if (rnd01() < 0.002) {    // fairness: every runnable thread runs eventually under any policy
    int n = 0;
    Thr* pick = nullptr;
    for (int i = 0; i < g_nthr; ++i)
      if (g_thr[i].state == ST_RUN && rnd() % (u64)(++n) == 0) pick = &g_thr[i];
    if (pick) return pick;
  }
  if (g_cfg.policy == 1) {  // priorities: highest non-idle runnable; on preemption the current drops
    if (reason == R_PREEMPT) g_cur->prio = rnd() >> 2;
    if (reason == R_YIELD) g_cur->prio = rnd() >> 8;
    Thr* best = nullptr;
    for (int i = 0; i < g_nthr; ++i) {
      Thr* t = &g_thr[i];
      if (t->state != ST_RUN) continue;
      u64 p = t->prio;
      if (t->idle && any_busy && rnd01() >= g_cfg.idle_factor) continue;
      if (!best || p > best->prio) best = t;
    }
    if (best) return best;
  }
  double w[SIM_MAX_THREADS];
  for (int i = 0; i < g_nthr; ++i) {
    Thr* t = &g_thr[i];
    w[i] = 0;
    if (t->state != ST_RUN) continue;
    w[i] = t->weight;
    if (t->idle && any_busy) w[i] *= g_cfg.idle_factor;
    if (t == g_cur && reason == R_YIELD) w[i] *= 0.05;
    tot += w[i];
  }
  if (tot <= 0) return nullptr;
  double x = rnd01() * tot;
  Thr* last = nullptr;
  for (int i = 0; i < g_nthr; ++i) {
    if (w[i] <= 0) continue;
    last = &g_thr[i];
    x -= w[i];
    if (x < 0) break;
  }
  return last;
}

static void switch_to(Thr* n, int reason) {
  Thr* me = g_cur;
  if (n == me) return;
  g_res->switches++;
  if (reason == R_PREEMPT) g_res->faults[F_PREEMPT]++;
  me->own_steps += g_steps - g_slice_start;
  g_slice_start = g_steps;
  g_cur = n;
  gate_open(n);
  if (reason != R_EXIT) gate_wait(me);
}

static void deadlock() {
  char b[1500];
  b[0] = 0;
  describe_threads(b, sizeof b);
  sim_violation("deadlock", "no thread can make progress:%s; stack of t%d:", b, g_cur->id);
}

// The one place where the next thread is chosen.
static void schedule(int reason) {
  ++g_steps;
  if (UNLIKELY(g_steps >= g_cfg.step_cap)) {
    char b[1500];
    b[0] = 0;
    describe_threads(b, sizeof b);
    sim_violation("no-progress", "step budget of %llu exhausted without the run finishing:%s; stack of t%d:",
                  (unsigned long long)g_cfg.step_cap, b, g_cur->id);
  }
  fire_timers();
  Thr* d = default_choice(reason);
  if (!d) {
    // nothing runnable: jump to the next deadline, or deadlock
    u64 dl = min_deadline();
    if (dl == ~0ull) deadlock();
    u64 now = sim_now();
    if (dl > now) g_jump_ns += dl - now;
    mixh(dl);
    fire_timers();
    d = default_choice(reason);
    if (!d) deadlock();
  } else if (reason == R_YIELD || reason == R_BLOCK) {
    bool all_idle = true;
    Thr* unsettled = nullptr;
    int nrun = 0;
    for (int i = 0; i < g_nthr; ++i)
      if (g_thr[i].state == ST_RUN || (g_thr[i].state == ST_BLOCK && g_thr[i].wait_kind == W_MUTEX && !mutex_stuck(&g_thr[i]))) {
        nrun++;
        if (!g_thr[i].idle) all_idle = false;
        if (g_thr[i].state == ST_RUN && g_thr[i].nyields < g_thr[i].yield_base + 3 && !unsettled) unsettled = &g_thr[i];
      }
    if (all_idle) {
      ++g_idle_rounds;
      u64 dl = min_deadline();
      if (dl != ~0ull && unsettled && g_idle_rounds > (u64)(4 * nrun)) {
        g_settling = 1;
        d = unsettled;
      } else if (dl != ~0ull && g_idle_rounds > (u64)(4 * nrun)) {
        u64 now = sim_now();
        if (dl > now) g_jump_ns += dl - now;
        mixh(dl);
        idle_restart();
        fire_timers();
        d = default_choice(reason);
      } else if (dl == ~0ull && g_idle_rounds > 20000) {
        char b[1500];
        b[0] = 0;
        describe_threads(b, sizeof b);
        sim_violation("livelock", "all runnable threads spin and nothing else can happen:%s; stack of t%d:", b, g_cur->id);
      }
    } else {
      idle_restart();
    }
  }
  Thr* c = d;
  if (g_cfg.replay) {
    while (g_indev_pos < g_nindev && g_indev[g_indev_pos].step < g_steps) g_indev_pos++;
    if (g_indev_pos < g_nindev && g_indev[g_indev_pos].step == g_steps) {
      u32 want = g_indev[g_indev_pos].tid;
      if (want != DEV_COIN) g_indev_pos++;
      if (want < (u32)g_nthr && g_thr[want].state == ST_RUN)
        c = &g_thr[want];
    }
  } else if (!g_cfg.sched_off && !g_settling) {
    Thr* r = random_choice(reason);
    if (r) c = r;
  }
  if (c != d) {
    if (g_res->ndev < SIM_MAX_DEV) {
      g_res->dev[g_res->ndev].step = g_steps;
      g_res->dev[g_res->ndev].tid = c->id;
    }
    g_res->ndev++;
  }
  if (reason != R_PREEMPT || c != g_cur) mixh(g_steps * 131 + c->id);
  if (c != g_cur && g_cfg.verbose > 1) sim_note("switch to t%d (%s)", c->id, reason == R_PREEMPT ? "preempt" : reason == R_YIELD ? "yield" : "block");
  next_trigger();
  switch_to(c, reason);
}

// The operating system does not run a thread for a long time, wherever it is.
static bool coin(double p);
static int block(int kind, u64 key, u64 deadline);
static int g_freezes = 0;
static bool try_freeze() {
  if (g_cur->id == 0 || g_cur->nofault || g_cur->ignore || g_freezes >= 4 || !coin(g_cfg.freeze)) return false;
  ++g_freezes;
  g_res->faults[F_STARVE]++;
  sim_note("t%d is not run for %llu ns", g_cur->id, (unsigned long long)g_cfg.freeze_ns);
  block(W_SLEEP, 0, sim_now() + g_cfg.freeze_ns);
  return true;
}
// Counts exactly one step, like the fast path: step numbers must not depend on where triggers fall.
static void trigger_slow() {
  if (g_wall_jump_step <= g_steps + 1) {
    g_wall_jump_step = ~0ull;
    do_wall_jump(g_wall_jump_ns);
  }
  if (UNLIKELY(g_cfg.freeze > 0) && try_freeze()) return;
  schedule(R_PREEMPT);
}
static inline void step_mem() {
  if (UNLIKELY(g_steps + 1 >= g_trigger)) trigger_slow();
  else ++g_steps;
}
// A coin flip inside the runtime (spurious wake-ups, weak CAS failures): recorded for replay.
static bool coin(double p) {
  if (g_cur->ignore) return false;
  if (g_cfg.replay) {
    while (g_indev_pos < g_nindev && g_indev[g_indev_pos].step < g_steps) g_indev_pos++;
    if (g_indev_pos < g_nindev && g_indev[g_indev_pos].step == g_steps && g_indev[g_indev_pos].tid == DEV_COIN) {
      g_indev_pos++;
      return true;
    }
    return false;
  }
  if (p <= 0 || rnd01() >= p) return false;
  if (g_res->ndev < SIM_MAX_DEV) { g_res->dev[g_res->ndev].step = g_steps; g_res->dev[g_res->ndev].tid = DEV_COIN; }
  g_res->ndev++;
  return true;
}
// A synchronisation operation: a preferred place for preemption.
static void sync_point(int kind) {
  Thr* t = g_cur;
  if (t->ignore) return;
  g_res->syncops++;
  mixs((u64)t->id * 16 + kind);
  if (!g_cfg.replay && !g_cfg.sched_off) {
    double w = g_cfg.sync_weight;
    u64 wi = (u64)w;
    if (wi > 1 && g_trigger > g_steps) g_trigger = (g_trigger - g_steps > wi) ? g_trigger - (wi - 1) : g_steps + 1;
  }
  step_mem();
}
EXPORT void sim_preempt(void) { if (g_on) sync_point(15); }

static int block(int kind, u64 key, u64 deadline) {
  Thr* t = g_cur;
  t->state = ST_BLOCK;
  t->wait_kind = kind;
  t->wait_key = key;
  t->deadline = deadline;
  t->wait_seq = ++g_wait_seq;
  t->timed_out = 0;
  if (kind != W_MUTEX) {
    t->idle = 0;
    idle_restart();
  }
  schedule(R_BLOCK);
  return t->timed_out;
}
static int wake(int kind, u64 key, int n) {
  int cnt = 0;
  fire_timers();  // an expired waiter is no longer waiting, whenever the scheduler looks
  while (cnt < n) {
    Thr* best = nullptr;
    for (int i = 0; i < g_nthr; ++i) {
      Thr* t = &g_thr[i];
      if (t->state == ST_BLOCK && t->wait_kind == kind && t->wait_key == key && (!best || t->wait_seq < best->wait_seq)) best = t;
    }
    if (!best) break;
    wake_thr(best, 0);
    cnt++;
  }
  return cnt;
}

// ------------------------------------------------------------------ vector clocks
struct SyncVar { u64 vc[SIM_MAX_THREADS]; u32 next; u32 used; };
static SyncVar* g_sv = nullptr;
static u32 g_nsv = 0, g_svfree = 0;
static const u32 MAX_SV = 400000;

static SyncVar* sync_get(u64 addr) {
  u32* ix = syidx_of(addr);
  if (!ix) return nullptr;
  if (!*ix) {
    u32 k;
    if (g_svfree) {
      k = g_svfree;
      g_svfree = g_sv[k].next;
    } else {
      if (!g_sv) {
        g_sv = (SyncVar*)mmap(nullptr, sizeof(SyncVar) * (u64)MAX_SV, PROT_READ | PROT_WRITE,
                              MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (g_sv == MAP_FAILED) die_raw("simrt: syncvars\n");
        g_nsv = 1;
      }
      if (g_nsv >= MAX_SV) sim_harness_error("out of sync variables");
      k = g_nsv++;
    }
    __real_memset(g_sv[k].vc, 0, sizeof(u64) * (g_nthr ? g_nthr : 1));
    g_sv[k].used = g_nthr;
    *ix = k;
  }
  SyncVar* s = &g_sv[*ix];
  if (s->used < (u32)g_nthr) {
    __real_memset(s->vc + s->used, 0, sizeof(u64) * (g_nthr - s->used));
    s->used = g_nthr;
  }
  return s;
}
static inline void vc_join(u64* a, const u64* b, int n) {
  for (int i = 0; i < n; ++i)
    if (b[i] > a[i]) a[i] = b[i];
}
static void acquire(u64 addr) {
  u32* ix = syidx_of(addr);
  if (!ix || !*ix) return;
  SyncVar* s = sync_get(addr);
  vc_join(g_cur->vc, s->vc, g_nthr);
  g_res->nsync_edges++;
}
static void release(u64 addr, bool rmw) {
  SyncVar* s = sync_get(addr);
  if (!s) return;
  if (rmw) vc_join(s->vc, g_cur->vc, g_nthr);
  else __real_memcpy(s->vc, g_cur->vc, sizeof(u64) * g_nthr);
  g_cur->clk++;
  g_cur->vc[g_cur->id] = g_cur->clk;
}

// ------------------------------------------------------------------ race detection
// cell: mask[0..8) tid[8..16) write bit16 atomic bit17 clk[18..64); tid 0xff = poisoned bytes
#define C_WRITE (1ull << 16)
#define C_ATOMIC (1ull << 17)
#define C_TID(c) (((c) >> 8) & 0xff)
#define C_CLK(c) ((c) >> 18)
static const u64 POISON_FREED = 0xff00ull | C_WRITE | (1ull << 18);
static const u64 POISON_RED = 0xff00ull | C_ATOMIC | (1ull << 18);

static void report_poison(u64 addr, u64 c, int size, int write, u64 pc) {
  bool freed = (c & C_WRITE) != 0;
  sim_violation(freed ? "use-after-free" : "out-of-bounds", "%s of %d bytes at 0x%llx that %s, by t%d; stack: @0x%llx",
                write ? "write" : "read", size, (unsigned long long)addr,
                freed ? "has been freed" : "lies outside any live allocation", g_cur->id, (unsigned long long)pc);
}
static void report_race(u64 addr, u64 c, int size, u64 me, u64 pc) {
  sim_violation("data-race", "%s%s of %d bytes at 0x%llx by t%d is not ordered with an earlier %s%s by t%d; stack: @0x%llx",
                (me & C_ATOMIC) ? "atomic " : "", (me & C_WRITE) ? "write" : "read", size, (unsigned long long)addr, g_cur->id,
                (c & C_ATOMIC) ? "atomic " : "", (c & C_WRITE) ? "write" : "read", (int)C_TID(c), (unsigned long long)pc);
}
static inline void check_granule(u64* s, u64 mask, u64 flags, u64 addr, int size, u64 pc) {
  Thr* t = g_cur;
  const u64 me = mask | ((u64)t->id << 8) | flags | (t->clk << 18);
  int store = -1;
  for (int i = 0; i < 4; ++i) {
    u64 c = s[i];
    if (c == me) return;
    if (!c) {
      if (store < 0) store = i;
      continue;
    }
    if (!(c & mask & 0xff)) continue;
    u64 ct = C_TID(c);
    if (UNLIKELY(ct == 0xff)) report_poison(addr, c, size, (flags & C_WRITE) != 0, pc);
    bool cw = c & C_WRITE, ca = c & C_ATOMIC, mw = flags & C_WRITE, ma = flags & C_ATOMIC;
    bool sub = ((c & 0xff) & ~mask) == 0;
    if (ct == (u64)t->id) {
      if (sub && (mw || !cw) && (!ma || ca)) { if (store < 0) store = i; else s[i] = 0; continue; }
      if (C_CLK(c) == t->clk && (mask & ~(c & 0xff)) == 0 && (cw || !mw) && (!ca || ma)) return;
    } else {
      bool ordered = C_CLK(c) <= t->vc[ct];
      if (UNLIKELY(!ordered && (cw || mw) && !(ca && ma))) {
        if (g_cfg.detect_races) report_race(addr, c, size, me, pc);
      }
      if (ordered && sub && (mw || !cw) && (!ma || ca)) { if (store < 0) store = i; else s[i] = 0; continue; }
    }
  }
  if (store < 0) {
    for (int k = 0; k < 4; ++k) {
      int i = (int)((g_steps + k) & 3);
      if (C_TID(s[i]) != 0xff) { store = i; break; }
    }
    if (store < 0) return;
  }
  s[store] = me;
}
static u64 g_ign_steps = 0;
static inline void ignored_step() {
  if (UNLIKELY(++g_ign_steps >= 60 * g_cfg.step_cap))
    sim_violation("no-progress", "step budget exhausted in an unscheduled section; stack of t%d:", g_cur->id);
}
static inline void mem_access(u64 addr, int size, u64 flags, u64 pc) {
  if (UNLIKELY(!g_on)) return;
  Thr* t = g_cur;
  if (t->ignore) { ignored_step(); return; }
  step_mem();
  if (UNLIKELY(!g_mem_check)) return;
  u64 a = addr;
  int left = size;
  while (left > 0) {
    int off = a & 7;
    int n = 8 - off < left ? 8 - off : left;
    u64* s = shadow_of(a);
    if (!s) return;
    u64 mask = ((1ull << n) - 1) << off;
    check_granule(s, mask, flags, addr, size, pc);
    a += n;
    left -= n;
  }
}
static void range_access(u64 addr, u64 size, u64 flags, u64 pc) {
  if (!g_on || !size || g_cur->ignore) return;
  step_mem();
  if (!g_mem_check) return;
  u64 a = addr, end = addr + size;
  while (a < end) {
    int off = a & 7;
    int n = 8 - off;
    if ((u64)n > end - a) n = (int)(end - a);
    u64* s = shadow_of(a);
    if (!s) return;
    check_granule(s, ((n == 8 ? 0x100ull : (1ull << n)) - 1) << off, flags, addr, (int)size, pc);
    a += n;
  }
}

#define PC ((u64)__builtin_return_address(0))
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_func_entry(void* pc) {
  if (!g_on) return;
  Thr* t = g_cur;
  if (t->depth < 64 && t->depth >= 0) t->cs[t->depth] = (u64)pc;
  t->depth++;
}
EXPORT void __tsan_func_exit(void) {
  if (!g_on) return;
  if (g_cur->depth > 0) g_cur->depth--;
}
#define RW(N)                                                                              \
  EXPORT void __tsan_read##N(void* a) { mem_access((u64)a, N, 0, PC); }                    \
  EXPORT void __tsan_write##N(void* a) { mem_access((u64)a, N, C_WRITE, PC); }             \
  EXPORT void __tsan_unaligned_read##N(void* a) { mem_access((u64)a, N, 0, PC); }          \
  EXPORT void __tsan_unaligned_write##N(void* a) { mem_access((u64)a, N, C_WRITE, PC); }   \
  EXPORT void __tsan_volatile_read##N(void* a) { mem_access((u64)a, N, 0, PC); }           \
  EXPORT void __tsan_volatile_write##N(void* a) { mem_access((u64)a, N, C_WRITE, PC); }    \
  EXPORT void __tsan_read##N##_pc(void* a, void*) { mem_access((u64)a, N, 0, PC); }        \
  EXPORT void __tsan_write##N##_pc(void* a, void*) { mem_access((u64)a, N, C_WRITE, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* a, unsigned long n) { range_access((u64)a, n, 0, PC); }
EXPORT void __tsan_write_range(void* a, unsigned long n) { range_access((u64)a, n, C_WRITE, PC); }
EXPORT void __tsan_vptr_read(void** a) { mem_access((u64)a, 8, 0, PC); }
EXPORT void __tsan_vptr_update(void** a, void* v) {
  // rewriting the same value (a destructor) is harmless; it counts as a step all the same, because
  // the old value may be whatever the memory held before
  mem_access((u64)a, 8, *a == v ? 0 : C_WRITE, PC);
}

static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline void at_pre(u64 a, int size, bool write, u64 pc) {
  sync_point(1);
  if (g_mem_check && !g_cur->ignore) {
    u64* s = shadow_of(a);
    if (s) check_granule(s, (((size == 8 ? 0x100ull : (1ull << size)) - 1) << (a & 7)) & 0xff, C_ATOMIC | (write ? C_WRITE : 0), a, size, pc);
  }
}
#define ATOMICS(BITS, T)                                                                                       \
  EXPORT T __tsan_atomic##BITS##_load(const volatile T* a, int mo) {                                           \
    if (!g_on) return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                    \
    at_pre((u64)a, BITS / 8, false, PC);                                                                       \
    T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                \
    if (is_acq(mo)) acquire((u64)a);                                                                           \
    return v;                                                                                                  \
  }                                                                                                            \
  EXPORT void __tsan_atomic##BITS##_store(volatile T* a, T v, int mo) {                                        \
    if (!g_on) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; }                                           \
    at_pre((u64)a, BITS / 8, true, PC);                                                                        \
    if (is_rel(mo)) release((u64)a, false);                                                                    \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                  \
  }                                                                                                            \
  static inline void rmw_hb##BITS(volatile T* a, int mo) {                                                     \
    if (is_acq(mo)) acquire((u64)a);                                                                           \
    if (is_rel(mo)) release((u64)a, true);                                                                     \
  }                                                                                                            \
  EXPORT T __tsan_atomic##BITS##_exchange(volatile T* a, T v, int mo) {                                        \
    if (!g_on) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                             \
    at_pre((u64)a, BITS / 8, true, PC);                                                                        \
    rmw_hb##BITS(a, mo);                                                                                       \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                        \
  }                                                                                                            \
  EXPORT T __tsan_atomic##BITS##_fetch_add(volatile T* a, T v, int mo) {                                       \
    if (!g_on) return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                              \
    at_pre((u64)a, BITS / 8, true, PC); rmw_hb##BITS(a, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##BITS##_fetch_sub(volatile T* a, T v, int mo) {                                       \
    if (!g_on) return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                              \
    at_pre((u64)a, BITS / 8, true, PC); rmw_hb##BITS(a, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##BITS##_fetch_and(volatile T* a, T v, int mo) {                                       \
    if (!g_on) return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                              \
    at_pre((u64)a, BITS / 8, true, PC); rmw_hb##BITS(a, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##BITS##_fetch_or(volatile T* a, T v, int mo) {                                        \
    if (!g_on) return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                               \
    at_pre((u64)a, BITS / 8, true, PC); rmw_hb##BITS(a, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##BITS##_fetch_xor(volatile T* a, T v, int mo) {                                       \
    if (!g_on) return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                              \
    at_pre((u64)a, BITS / 8, true, PC); rmw_hb##BITS(a, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##BITS##_fetch_nand(volatile T* a, T v, int mo) {                                      \
    if (!g_on) return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                             \
    at_pre((u64)a, BITS / 8, true, PC); rmw_hb##BITS(a, mo); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  static int cas##BITS(volatile T* a, T* c, T v, int mo, int fmo, int weak, u64 pc) {                          \
    if (!g_on) return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);             \
    at_pre((u64)a, BITS / 8, true, pc);                                                                        \
    if (weak && coin(g_cfg.weak_cas)) {           \
      g_res->faults[F_WEAK_CAS]++; *c = __atomic_load_n(a, __ATOMIC_SEQ_CST); return 0; }                      \
    int ok = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                      \
    if (ok) rmw_hb##BITS(a, mo); else if (is_acq(fmo)) acquire((u64)a);                                        \
    return ok;                                                                                                 \
  }                                                                                                            \
  EXPORT int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { return cas##BITS(a, c, v, mo, fmo, 0, PC); } \
  EXPORT int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return cas##BITS(a, c, v, mo, fmo, 1, PC); }   \
  EXPORT T __tsan_atomic##BITS##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { cas##BITS(a, &c, v, mo, fmo, 0, PC); return c; }
ATOMICS(8, u8)
ATOMICS(16, uint16_t)
ATOMICS(32, u32)
ATOMICS(64, u64)
EXPORT void __tsan_atomic_thread_fence(int mo) {
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
  if (!g_on) return;
  sync_point(2);
  if (is_acq(mo)) vc_join(g_cur->vc, g_fence_vc, g_nthr);
  if (is_rel(mo)) {
    vc_join(g_fence_vc, g_cur->vc, g_nthr);
    g_cur->clk++;
    g_cur->vc[g_cur->id] = g_cur->clk;
  }
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// memcpy & co. of instrumented objects (linked with --wrap)
EXPORT void* __wrap_memcpy(void* d, const void* s, size_t n) {
  range_access((u64)s, n, 0, PC);
  range_access((u64)d, n, C_WRITE, PC);
  return __real_memmove(d, s, n);
}
EXPORT void* __wrap_memmove(void* d, const void* s, size_t n) {
  range_access((u64)s, n, 0, PC);
  range_access((u64)d, n, C_WRITE, PC);
  return __real_memmove(d, s, n);
}
EXPORT void* __wrap_memset(void* d, int c, size_t n) {
  range_access((u64)d, n, C_WRITE, PC);
  return __real_memset(d, c, n);
}

// ------------------------------------------------------------------ allocator
struct Hdr { u32 size; u32 cls; u64 magic; };
static const u64 MAGIC_LIVE = 0x51a110c8ull, MAGIC_FREE = 0xf4eed0ffull, MAGIC_ALIGNED = 0xa119edull;
struct FreeQ { u64 head, tail; u32 n; };
static const int NCLS = 64 + 24;
static FreeQ g_fq[NCLS];

static inline void mlock_() { while (__atomic_exchange_n(&g_mlock, 1, __ATOMIC_ACQUIRE)) raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
static inline void munlock_() { __atomic_store_n(&g_mlock, 0, __ATOMIC_RELEASE); }

static int cls_of(u64 n) {
  if (n <= 1024) return (int)((n + 15) / 16 - 1 < 64 ? (n + 15) / 16 - 1 : 63);
  int k = 0;
  u64 c = 2048;
  while (c < n) { c <<= 1; k++; }
  return 64 + k;
}
static u64 cls_size(int c) { return c < 64 ? (u64)(c + 1) * 16 : 2048ull << (c - 64); }

static void shadow_set(u64 a, u64 n, u64 v) {
  // n multiple of 8, v poison or 0
  u64* s = shadow_of(a);
  if (!s) return;
  if (v == 0) { __real_memset(s, 0, n / 8 * 32); return; }
  for (u64 i = 0; i < n / 8; ++i) { s[i * 4] = v; s[i * 4 + 1] = s[i * 4 + 2] = s[i * 4 + 3] = 0; }
}
static void sync_clear(u64 a, u64 n) {
  u32* ix = syidx_of(a);
  if (!ix) return;
  for (u64 i = 0; i < n / 8; ++i)
    if (ix[i]) {
      g_sv[ix[i]].next = g_svfree;
      g_svfree = ix[i];
      ix[i] = 0;
    }
}

static void* do_malloc(u64 n) {
  if (!g_arena_ready) arena_init();
  if (n == 0) n = 1;
  if (n > HEAP_SZ / 4) return nullptr;
  int c = cls_of(n);
  u64 cs = cls_size(c);
  mlock_();
  u64 p;
  FreeQ* q = &g_fq[c];
  u32 quarantine = c < 16 ? 512 : c < 64 ? 64 : 4;
  if (q->n > quarantine) {
    p = q->head;
    q->head = *(u64*)p;
    q->n--;
  } else {
    u64 tot = cs + 32;
    if (g_bump + tot > ARENA + HEAP_SZ) { munlock_(); return nullptr; }
    p = g_bump + 16;
    g_bump += tot;
    if (g_on) { shadow_set(p - 16, 16, 0xff | POISON_RED); shadow_set(p + cs, 16, 0xff | POISON_RED); }
  }
  Hdr* h = (Hdr*)(p - 16);
  h->size = (u32)n;
  h->cls = c;
  h->magic = MAGIC_LIVE;
  munlock_();
  if (g_on) {
    u64 up = (n + 7) & ~7ull;
    shadow_set(p, up, 0);
    if (n & 7) shadow_of(p + up - 8)[0] = POISON_RED | (0xffull & ~((1ull << (n & 7)) - 1));
    if (up < cs) shadow_set(p + up, cs - up, 0xff | POISON_RED);
    sync_clear(p, cs);
    __real_memset((void*)p, 0xCB, n < 65536 ? n : 65536);  // uninitialised memory is repeatable
  }
  return (void*)p;
}
static bool alloc_fault() {
  if (!g_on) return false;
  g_res->allocs++;
  Thr* t = g_cur;
  if (t->nofault || t->ignore) return false;
  if (g_fail_alloc_tid >= 0 && g_fail_alloc_tid != t->id) return false;
  long k = ++g_alloc_seen;
  if (g_fail_alloc_n && k == g_fail_alloc_n) {
    g_alloc_fired++;
    g_res->faults[F_ALLOC]++;
    mixh(0xa110c + k);
    sim_note("allocation %ld fails", k);
    return true;
  }
  return false;
}
EXPORT void* malloc(size_t n) {
  if (UNLIKELY(alloc_fault())) { errno = ENOMEM; return nullptr; }
  void* p = do_malloc(n);
  if (!p) errno = ENOMEM;
  return p;
}
EXPORT void free(void* v) {
  if (!v) return;
  u64 p = (u64)v;
  if (p - ARENA >= HEAP_SZ) return;
  Hdr* h = (Hdr*)(p - 16);
  if (h->magic != MAGIC_LIVE) {
    if (h->magic == MAGIC_FREE && g_on) sim_violation("double-free", "block 0x%llx freed twice by t%d; stack: @0x%llx", (unsigned long long)p, g_cur->id, (unsigned long long)PC);
    if (g_on) sim_violation("bad-free", "0x%llx is not an allocated block; stack: @0x%llx", (unsigned long long)p, (unsigned long long)PC);
    die_raw("simrt: bad free\n");
  }
  u64 cs = cls_size(h->cls);
  if (g_on && p < g_sim_base) { h->magic = MAGIC_FREE; return; }
  mlock_();
  h->magic = MAGIC_FREE;
  FreeQ* q = &g_fq[h->cls];
  // poison first, then link through the block itself
  if (g_on) shadow_set(p, cs, 0xff | POISON_FREED);
  *(u64*)p = 0;
  if (q->n == 0) q->head = p; else *(u64*)q->tail = p;
  q->tail = p;
  q->n++;
  munlock_();
}
EXPORT void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  void* p = malloc(n);
  if (p) __real_memset(p, 0, n);
  return p;
}
EXPORT void* realloc(void* v, size_t n) {
  if (!v) return malloc(n);
  void* p = malloc(n);
  if (!p) return nullptr;
  Hdr* h = (Hdr*)((u64)v - 16);
  __real_memcpy(p, v, h->size < n ? h->size : n);
  free(v);
  return p;
}
// Blocks are 16-byte aligned; stricter alignment wastes memory and is never returned to the pool.
static void* aligned(size_t al, size_t n) {
  if (al <= 16) return malloc(n);
  if (alloc_fault()) { errno = ENOMEM; return nullptr; }
  if (!g_arena_ready) arena_init();
  mlock_();
  u64 p = ((g_bump + 16 + al - 1) & ~(u64)(al - 1));
  u64 cs = (n + 15) & ~15ull;
  int c = cls_of(cs);
  if (c >= 64) cs = cls_size(c);
  g_bump = p + cs + 16;
  if (g_bump > ARENA + HEAP_SZ) { munlock_(); errno = ENOMEM; return nullptr; }
  Hdr* h = (Hdr*)(p - 16);
  h->size = (u32)n;
  h->cls = c;
  h->magic = MAGIC_LIVE;
  munlock_();
  if (g_on) { shadow_set(p - 16, 16, 0xff | POISON_RED); shadow_set(p + cs, 16, 0xff | POISON_RED); }
  return (void*)p;
}
EXPORT void* memalign(size_t al, size_t n) { return aligned(al, n); }
EXPORT void* aligned_alloc(size_t al, size_t n) { return aligned(al, n); }
EXPORT int posix_memalign(void** out, size_t al, size_t n) {
  void* p = aligned(al, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
EXPORT size_t malloc_usable_size(void* v) { return v ? ((Hdr*)((u64)v - 16))->size : 0; }

// ------------------------------------------------------------------ real functions
typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
typedef int (*join_t)(pthread_t, void**);
typedef int (*detach_t)(pthread_t);
static create_t real_create;
static join_t real_join;
static detach_t real_detach;
static void load_real() {
  if (real_create) return;
  real_create = (create_t)dlsym(RTLD_NEXT, "pthread_create");
  real_join = (join_t)dlsym(RTLD_NEXT, "pthread_join");
  real_detach = (detach_t)dlsym(RTLD_NEXT, "pthread_detach");
}

// ------------------------------------------------------------------ threads
// thread_local destructors run as part of the simulated thread
struct TlsDtor { void (*fn)(void*); void* obj; TlsDtor* next; };
EXPORT int __cxa_thread_atexit_impl(void (*fn)(void*), void* obj, void*) {
  if (!g_on) return 0;
  TlsDtor* d = (TlsDtor*)do_malloc(sizeof(TlsDtor));
  d->fn = fn;
  d->obj = obj;
  d->next = (TlsDtor*)g_cur->tls_dtors;
  g_cur->tls_dtors = d;
  return 0;
}
static void run_tls_dtors(Thr* t) {
  while (t->tls_dtors) {
    TlsDtor* d = (TlsDtor*)t->tls_dtors;
    t->tls_dtors = d->next;
    d->fn(d->obj);
  }
}
static void* trampoline(void* v) {
  Thr* t = (Thr*)v;
  gate_wait(t);
  t->ret = t->fn(t->arg);
  run_tls_dtors(t);
  // thread exit: release to joiners
  sync_point(9);
  t->state = ST_DONE;
  t->clk++;
  t->vc[t->id] = t->clk;
  mixh(0xdead00 + t->id);
  sim_note("thread t%d ends", t->id);
  wake(W_JOIN, (u64)t->id, SIM_MAX_THREADS);
  if (t->id == 0) finish(SIM_OK);
  ++g_steps;
  // hand over
  fire_timers();
  schedule(R_EXIT);
  return t->ret;
}
static Thr* new_thread(void* (*fn)(void*), void* arg) {
  if (g_nthr >= SIM_MAX_THREADS - 1) sim_harness_error("too many simulated threads");
  Thr* t = &g_thr[g_nthr];
  __real_memset(t, 0, sizeof *t);
  t->id = g_nthr;
  t->fn = fn;
  t->arg = arg;
  t->deadline = ~0ull;
  t->clk = 1;
  t->weight = 1;
  ++g_nthr;
  return t;
}
static int spawn(Thr* t) {
  pthread_attr_t at;
  pthread_attr_init(&at);
  u64 stk = STACKS + (u64)t->id * STACK_SZ;
  pthread_attr_setstack(&at, (void*)stk, STACK_SZ);
  int rc = real_create(&t->pth, &at, trampoline, t);
  pthread_attr_destroy(&at);
  return rc;
}
EXPORT int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  load_real();
  if (!g_on) return real_create(out, attr, fn, arg);
  sync_point(3);
  ++g_thread_seen;
  if (g_fail_thread_n && g_thread_seen == g_fail_thread_n) {
    g_res->faults[F_THREAD_CREATE]++;
    mixh(0x7c);
    sim_note("thread creation fails");
    return EAGAIN;
  }
  Thr* t = new_thread(fn, arg);
  Thr* c = g_cur;
  __real_memcpy(t->vc, c->vc, sizeof(u64) * g_nthr);
  t->vc[t->id] = t->clk;
  c->clk++;
  c->vc[c->id] = c->clk;
  if (!g_cfg.replay && !g_cfg.sched_off) {
    static const double ws[4] = {1, 1, 0.2, 0.02};
    t->weight = g_cfg.policy == 2 ? ws[rnd() & 3] : 1;
    t->prio = rnd() >> 2;
  }
  c->nofault++;
  int rc = spawn(t);
  c->nofault--;
  if (rc) sim_harness_error("pthread_create: %d", rc);
  t->state = ST_RUN;
  *out = t->pth;
  mixh(0x5947 + t->id);
  sim_note("creates thread t%d", t->id);
  sync_point(3);
  return 0;
}
static Thr* find(pthread_t p) {
  for (int i = 0; i < g_nthr; ++i)
    if (g_thr[i].state != ST_UNUSED && !g_thr[i].joined && pthread_equal(g_thr[i].pth, p)) return &g_thr[i];
  return nullptr;
}
EXPORT int pthread_join(pthread_t p, void** ret) {
  load_real();
  if (!g_on) return real_join(p, ret);
  Thr* t = find(p);
  if (!t) return ESRCH;
  if (t == g_cur) return EDEADLK;
  sync_point(4);
  while (t->state != ST_DONE) block(W_JOIN, t->id, ~0ull);
  t->joined = 1;
  vc_join(g_cur->vc, t->vc, g_nthr);
  if (ret) *ret = t->ret;
  void* r;
  real_join(p, &r);
  return 0;
}
EXPORT int pthread_detach(pthread_t p) {
  load_real();
  if (g_on) { Thr* t = find(p); if (t) t->detached = 1; }
  return real_detach(p);
}

static void yield_point() {
  Thr* t = g_cur;
  if (t->ignore) return;
  g_res->yields++;
  t->nyields++;
  u64 own = t->own_steps + (g_steps - g_slice_start);
  t->idle = own - t->last_yield_step < 400;
  t->last_yield_step = own;
  mixs((u64)t->id * 16 + 5);
  schedule(R_YIELD);
}
// Others run in between, but the thread is not one that spins.
static void wake_early() {
  Thr* t = g_cur;
  if (t->ignore) return;
  t->idle = 0;
  mixs((u64)t->id * 16 + 5);
  schedule(R_YIELD);
}
EXPORT int sched_yield(void) {
  if (!g_on) return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
  yield_point();
  return 0;
}

// ------------------------------------------------------------------ mutexes
// State lives in the pthread object itself: __data.__lock = owner+1, __count = recursion.
static u64 abs_to_mono(const struct timespec* ts, clockid_t clk) {
  i64 v = (i64)ts->tv_sec * 1000000000ll + ts->tv_nsec;
  if (ts->tv_sec > 9000000000ll) return ~0ull - 1;
  if (clk == CLOCK_REALTIME) v -= (i64)WALL_BASE + g_wall_off;
  return v < 0 ? 0 : (u64)v;
}
static int mutex_kind(pthread_mutex_t* m) { return m->__data.__kind & 3; }
static int mutex_lock(pthread_mutex_t* m, u64 deadline, bool try_only) {
  if (!g_on) {
    if (try_only && m->__data.__lock) return EBUSY;
    m->__data.__lock = 1;
    return 0;
  }
  Thr* t = g_cur;
  sync_point(6);
  for (;;) {
    int own = m->__data.__lock;
    if (own == 0) break;
    if (own == t->id + 1) {
      if (mutex_kind(m) == PTHREAD_MUTEX_RECURSIVE) { m->__data.__count++; return 0; }
      if (mutex_kind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    if (try_only) return EBUSY;
    g_res->probes[SIM_NPROBE - 1]++;  // contended lock
    if (block(W_MUTEX, (u64)m, deadline)) return ETIMEDOUT;
  }
  m->__data.__lock = t->id + 1;
  acquire((u64)m);
  return 0;
}
static int mutex_unlock(pthread_mutex_t* m) {
  if (!g_on) { m->__data.__lock = 0; return 0; }
  if (mutex_kind(m) == PTHREAD_MUTEX_RECURSIVE && m->__data.__count > 0) { m->__data.__count--; return 0; }
  if (m->__data.__lock != g_cur->id + 1 && !g_cur->ignore && m->__data.__lock != 1)
    sim_violation("bad-unlock", "mutex 0x%llx unlocked by t%d which does not hold it; stack: @0x%llx", (unsigned long long)(u64)m, g_cur->id, (unsigned long long)PC);
  release((u64)m, true);
  m->__data.__lock = 0;
  wake(W_MUTEX, (u64)m, SIM_MAX_THREADS);
  sync_point(7);
  return 0;
}
static void check_live(u64 a, int size, u64 pc) {
  // locking a mutex in freed memory is a use after free even though libpthread is not instrumented
  if (!g_on || !g_mem_check || g_cur->ignore) return;
  u64* s = shadow_of(a);
  if (!s) return;
  for (int i = 0; i < 4; ++i)
    if (C_TID(s[i]) == 0xff && s[i]) report_poison(a, s[i], size, 1, pc);
}
EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  int kind = 0;
  if (a) pthread_mutexattr_gettype(a, &kind);
  __real_memset(m, 0, sizeof *m);
  m->__data.__kind = kind;
  return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) { check_live((u64)m, 40, PC); return mutex_lock(m, ~0ull, false); }
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) { check_live((u64)m, 40, PC); return mutex_lock(m, ~0ull, true); }
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return mutex_lock(m, abs_to_mono(ts, CLOCK_REALTIME), false); }
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { return mutex_lock(m, abs_to_mono(ts, c), false); }
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) { check_live((u64)m, 40, PC); return mutex_unlock(m); }

// ------------------------------------------------------------------ condition variables
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline) {
  if (!g_on) return 0;
  sync_point(8);
  if (coin(g_cfg.spurious)) {
    g_res->faults[F_SPURIOUS_WAKE]++;
    mutex_unlock(m);
    wake_early();
    mutex_lock(m, ~0ull, false);
    return 0;
  }
  // release and block atomically
  release((u64)m, true);
  m->__data.__lock = 0;
  wake(W_MUTEX, (u64)m, SIM_MAX_THREADS);
  int to = block(W_COND, (u64)c, deadline);
  acquire((u64)c);
  mutex_lock(m, ~0ull, false);
  return to ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
  clockid_t clk = CLOCK_REALTIME;
  if (a) pthread_condattr_getclock(a, &clk);
  __real_memset(c, 0, sizeof *c);
  c->__size[0] = (char)(clk == CLOCK_MONOTONIC);
  return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t*) { return 0; }
EXPORT int pthread_cond_signal(pthread_cond_t* c) {
  if (!g_on) return 0;
  check_live((u64)c, 48, PC);
  sync_point(8);
  release((u64)c, true);
  wake(W_COND, (u64)c, 1);
  return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!g_on) return 0;
  check_live((u64)c, 48, PC);
  sync_point(8);
  release((u64)c, true);
  wake(W_COND, (u64)c, SIM_MAX_THREADS);
  return 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, ~0ull); }
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  return cond_wait(c, m, abs_to_mono(ts, c->__size[0] ? CLOCK_MONOTONIC : CLOCK_REALTIME));
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  return cond_wait(c, m, abs_to_mono(ts, k));
}

// ------------------------------------------------------------------ rwlocks, spin locks, semaphores
// rwlock: first int: writer+1 or 0, second int: readers
EXPORT int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { __real_memset(l, 0, sizeof *l); return 0; }
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
static int rw_lock(pthread_rwlock_t* l, bool wr, bool try_only, u64 dl) {
  int* s = (int*)l;
  if (!g_on) { if (wr) s[0] = 1; else s[1]++; return 0; }
  sync_point(6);
  while (wr ? (s[0] || s[1]) : s[0]) {
    if (try_only) return EBUSY;
    if (block(W_RW, (u64)l, dl)) return ETIMEDOUT;
  }
  if (wr) s[0] = g_cur->id + 1; else s[1]++;
  acquire((u64)l);
  return 0;
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rw_lock(l, false, false, ~0ull); }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return rw_lock(l, true, false, ~0ull); }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rw_lock(l, false, true, ~0ull); }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return rw_lock(l, true, true, ~0ull); }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  int* s = (int*)l;
  if (!g_on) { s[0] = s[1] = 0; return 0; }
  release((u64)l, true);
  if (s[0]) s[0] = 0; else if (s[1]) s[1]--;
  wake(W_RW, (u64)l, SIM_MAX_THREADS);
  sync_point(7);
  return 0;
}
EXPORT int pthread_spin_init(pthread_spinlock_t* l, int) { *(volatile int*)l = 0; return 0; }
EXPORT int pthread_spin_lock(pthread_spinlock_t* l) {
  if (!g_on) return 0;
  sync_point(6);
  while (*(volatile int*)l) block(W_RW, (u64)l, ~0ull);
  *(volatile int*)l = 1;
  acquire((u64)l);
  return 0;
}
EXPORT int pthread_spin_unlock(pthread_spinlock_t* l) {
  if (!g_on) return 0;
  release((u64)l, true);
  *(volatile int*)l = 0;
  wake(W_RW, (u64)l, SIM_MAX_THREADS);
  sync_point(7);
  return 0;
}
EXPORT int sem_init(sem_t* s, int, unsigned v) { ((u32*)s)[0] = v; return 0; }
EXPORT int sem_destroy(sem_t*) { return 0; }
EXPORT int sem_post(sem_t* s) {
  ((u32*)s)[0]++;
  if (!g_on) return 0;
  release((u64)s, true);
  wake(W_SEM, (u64)s, 1);
  sync_point(7);
  return 0;
}
static int sem_dec(sem_t* s, bool try_only, u64 dl) {
  if (g_on) sync_point(6);
  while (((u32*)s)[0] == 0) {
    if (try_only || !g_on) { errno = EAGAIN; return -1; }
    if (block(W_SEM, (u64)s, dl)) { errno = ETIMEDOUT; return -1; }
  }
  ((u32*)s)[0]--;
  if (g_on) acquire((u64)s);
  return 0;
}
EXPORT int sem_wait(sem_t* s) { return sem_dec(s, false, ~0ull); }
EXPORT int sem_trywait(sem_t* s) { return sem_dec(s, true, ~0ull); }
EXPORT int sem_timedwait(sem_t* s, const struct timespec* ts) { return sem_dec(s, false, abs_to_mono(ts, CLOCK_REALTIME)); }
EXPORT int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* ts) { return sem_dec(s, false, abs_to_mono(ts, c)); }

// ------------------------------------------------------------------ once / static guards
// pthread_once_t is an int: 0 new, 1 running, 2 done. An exception leaves it at 0 again.
struct OnceReset { pthread_once_t* o; };
extern "C" int simrt_once_call(void (*fn)(void), pthread_once_t* o);  // in simcxx.cpp (needs unwinding)
EXPORT int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  volatile int* s = (volatile int*)o;
  if (!g_on) {
    if (*s == 2) return 0;
    *s = 1;
    int rc = simrt_once_call(fn, o);
    *s = 2;
    return rc;
  }
  sync_point(10);
  for (;;) {
    if (*s == 2) { acquire((u64)o); return 0; }
    if (*s == 0) break;
    block(W_ONCE, (u64)o, ~0ull);
  }
  *s = 1;
  simrt_once_call(fn, o);
  release((u64)o, true);
  *s = 2;
  wake(W_ONCE, (u64)o, SIM_MAX_THREADS);
  return 0;
}
extern "C" void simrt_once_abort(pthread_once_t* o) {
  *(volatile int*)o = 0;
  if (g_on) wake(W_ONCE, (u64)o, SIM_MAX_THREADS);
}
// __cxa_guard: byte 0 = initialised, byte 1 = in progress
EXPORT int __cxa_guard_acquire(u64* g) {
  volatile char* c = (volatile char*)g;
  if (c[0]) { if (g_on) acquire((u64)g); return 0; }
  if (!g_on) { c[1] = 1; return 1; }
  sync_point(11);
  for (;;) {
    if (c[0]) { acquire((u64)g); return 0; }
    if (!c[1]) break;
    block(W_GUARD, (u64)g, ~0ull);
  }
  c[1] = 1;
  return 1;
}
EXPORT void __cxa_guard_release(u64* g) {
  volatile char* c = (volatile char*)g;
  if (g_on) release((u64)g, false);
  c[1] = 0;
  c[0] = 1;
  if (g_on) wake(W_GUARD, (u64)g, SIM_MAX_THREADS);
}
EXPORT void __cxa_guard_abort(u64* g) {
  volatile char* c = (volatile char*)g;
  c[1] = 0;
  if (g_on) wake(W_GUARD, (u64)g, SIM_MAX_THREADS);
}

// ------------------------------------------------------------------ futex and other system calls
static long sim_futex(u32* addr, int op, u32 val, const struct timespec* ts, u32 val3) {
  (void)val3;
  int cmd = op & 0x7f;
  bool real = op & FUTEX_CLOCK_REALTIME;
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    sync_point(12);
    int n = wake(W_FUTEX, (u64)addr, (int)val < 0 ? SIM_MAX_THREADS : (int)val);
    return n;
  }
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    sync_point(12);
    if (*(volatile u32*)addr != val) { errno = EAGAIN; return -1; }
    u64 dl = ~0ull;
    if (ts) {
      if (cmd == FUTEX_WAIT) dl = sim_now() + (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec;
      else dl = abs_to_mono(ts, real ? CLOCK_REALTIME : CLOCK_MONOTONIC);
    }
    if (coin(g_cfg.spurious)) {
      g_res->faults[F_SPURIOUS_WAKE]++;
      wake_early();
      errno = EINTR;
      return -1;
    }
    if (block(W_FUTEX, (u64)addr, dl)) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  sim_harness_error("unsupported futex operation %d", cmd);
  return -1;
}
EXPORT long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (g_on && n == SYS_futex) return sim_futex((u32*)a, (int)b, (u32)c, (const struct timespec*)d, (u32)f);
  if (g_on && n == SYS_clock_gettime) return clock_gettime((clockid_t)a, (struct timespec*)b);
  long r = raw6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

// ------------------------------------------------------------------ clocks and sleeping
EXPORT int clock_gettime(clockid_t id, struct timespec* ts) {
  if (!g_on) {
    long r = raw6(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return 0;
  }
  if (!g_cur->ignore) sync_point(14);
  u64 t = sim_now();
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) t += WALL_BASE + (u64)g_wall_off;
  ts->tv_sec = (time_t)(t / 1000000000ull);
  ts->tv_nsec = (long)(t % 1000000000ull);
  return 0;
}
EXPORT int gettimeofday(struct timeval* __restrict tv, void* __restrict) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
EXPORT time_t time(time_t* o) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (o) *o = ts.tv_sec;
  return ts.tv_sec;
}
EXPORT void sim_sleep(u64 ns) {
  if (!g_on) return;
  if (g_cur->ignore) return;
  sync_point(13);
  u64 now = sim_now();
  u64 dl = now + ns;
  if (dl < now) dl = ~0ull - 1;
  block(W_SLEEP, 0, dl);
}
EXPORT int nanosleep(const struct timespec* r, struct timespec*) {
  if (!g_on) { raw6(SYS_nanosleep, (long)r, 0, 0, 0, 0, 0); return 0; }
  sim_sleep((u64)r->tv_sec * 1000000000ull + r->tv_nsec);
  return 0;
}
EXPORT int clock_nanosleep(clockid_t id, int flags, const struct timespec* r, struct timespec*) {
  if (!g_on) { raw6(SYS_clock_nanosleep, id, flags, (long)r, 0, 0, 0); return 0; }
  if (flags & TIMER_ABSTIME) {
    u64 dl = abs_to_mono(r, id), now = sim_now();
    sim_sleep(dl > now ? dl - now : 0);
  } else {
    sim_sleep((u64)r->tv_sec * 1000000000ull + r->tv_nsec);
  }
  return 0;
}
EXPORT int usleep(useconds_t us) {
  struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}
EXPORT unsigned sleep(unsigned s) {
  struct timespec ts = {(time_t)s, 0};
  nanosleep(&ts, nullptr);
  return 0;
}

// ------------------------------------------------------------------ machine
EXPORT int get_nprocs(void) {
  if (g_on) { g_res->faults[F_CORES]++; return g_cfg.cores; }
  return 8;
}
EXPORT int get_nprocs_conf(void) { return get_nprocs(); }
EXPORT long sysconf(int name) {
  static long (*real)(int);
  if (g_on && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return get_nprocs();
  if (!real) real = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
  return real(name);
}
// std::thread::hardware_concurrency() is defined in libstdc++ and calls get_nprocs via the PLT.

// ------------------------------------------------------------------ files
static bool fopen_fault() {
  if (!g_on || g_cur->nofault) return false;
  ++g_fopen_seen;
  if (g_fail_fopen_n && g_fopen_seen == g_fail_fopen_n) {
    g_res->faults[F_FOPEN]++;
    mixh(0xf0);
    return true;
  }
  return false;
}
EXPORT FILE* fopen(const char* p, const char* m) {
  static FILE* (*real)(const char*, const char*);
  if (!real) real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen");
  if (fopen_fault()) { errno = EACCES; return nullptr; }
  return real(p, m);
}
EXPORT FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
EXPORT int fclose(FILE* f) {
  static int (*real)(FILE*);
  if (!real) real = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
  if (g_on && f == stdout) g_fclose_stdout++;
  return real(f);
}

// ------------------------------------------------------------------ entry
struct MainArg { void (*fn)(void*); void* arg; };
static MainArg g_main;
static void* main_thread(void*) {
  g_main.fn(g_main.arg);
  return nullptr;
}
static int g_exit_gate = 0;
EXPORT void sim_run(const SimCfg* cfg, const SimDev* devs, u64 ndevs, SimResult* res, void (*fn)(void*), void* arg) {
  load_real();
  arena_init();
  g_cfg = *cfg;
  g_res = res;
  g_indev = devs;
  g_nindev = ndevs;
  res->outcome = SIM_RUNNING;
  res->ndev = 0;
  u64 s = cfg->sched_seed;
  g_rng[0] = splitmix(&s);
  g_rng[1] = splitmix(&s);
  g_steps = 0;
  g_main.fn = fn;
  g_main.arg = arg;
  // same addresses in every process, whatever was allocated before
  __real_memset(g_fq, 0, sizeof g_fq);
  g_bump = ARENA + HEAP_SZ / 4;
  g_sim_base = g_bump;
  Thr* t = new_thread(main_thread, nullptr);
  t->vc[0] = 1;
  if (!cfg->replay) t->prio = rnd() >> 2;
  int rc = spawn(t);
  if (rc) die_raw("simrt: cannot start\n");
  t->state = ST_RUN;
  g_cur = t;
  next_trigger();
  g_on = 1;
  gate_open(t);
  for (;;) raw6(SYS_futex, (long)&g_exit_gate, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
}
