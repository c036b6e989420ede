extern "C" void* __real_memset(void*, int, unsigned long);
#include "rec.h"
#include "sim.h"
#include <string.h>
#include <sys/mman.h>
extern "C" void rec_init(RecCtx* c) {
  RecEntry* l = c->log;
  __real_memset(c, 0, sizeof *c);
  c->overlap_knot = -1;
  c->idle_ok = 1;
  c->enabled = 1;
  c->stall_enabled = 1;
  if (!l) l = (RecEntry*)mmap(0, sizeof(RecEntry) * REC_MAXLOG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  c->log = l;
}
static void put(RecCtx* c, int func, int knot, int ex) {
  if (!c->log_on || c->nlog >= REC_MAXLOG) return;
  RecEntry* e = &c->log[c->nlog++];
  e->tid = (uint8_t)(sim_tid() + 1);
  e->func = (uint8_t)func;
  e->knot = (uint8_t)knot;
  e->exit_ = (uint8_t)ex;
  e->step = (uint32_t)sim_steps();
}
extern "C" int rec_enter(RecCtx* c, int func, int knot, int64_t* param, int64_t* stall) {
  if (!c) return 0;
  uint32_t n = ++c->calls[func][knot];
  c->total++;
  if (!c->idle_ok) c->background++;
  if (c->active[knot] > 0 && func != FN_TASK) c->overlap_knot = knot;
  c->active[knot]++;
  c->active_total++;
  put(c, func, knot, 0);
  sim_event(0x100 + func, knot, n);
  int act = 0;
  if (c->enabled)
    for (int i = 0; i < c->nfaults; ++i) {
      RecFault* f = &c->f[i];
      if (f->func == func && (f->knot == knot || f->knot < 0) && n >= f->lo && n <= f->hi) {
        if (f->act == ACT_STALL) {
          if (!c->stall_enabled) continue;
          // a stall may be combined with another action: it happens first
          *stall = f->param;
          continue;
        }
        act = f->act;
        *param = f->param;
        c->fired[f->act]++;
        break;
      }
    }
  return act;
}
extern "C" void rec_exit(RecCtx* c, int func, int knot) {
  if (!c) return;
  c->active[knot]--;
  c->active_total--;
  put(c, func, knot, 1);
}
extern "C" void rec_norms(RecCtx* c, double xn, double un) {
  if (!c) return;
  if (xn > c->max_state) c->max_state = xn;
  if (un > c->max_control) c->max_control = un;
  if (!(xn <= 1e308)) c->bad_values++;
}
extern "C" void rec_add32(int* p, int v) { *(volatile int*)p += v; }
extern "C" int rec_get32(const int* p) { return *(const volatile int*)p; }
extern "C" void rec_stamp(uint64_t* p) { *(volatile uint64_t*)p = sim_now(); }
// A task begins. If time has passed without steps since StopThreads was called, every thread was blocked then, so that call was waiting.
extern "C" void rec_pool_begin(int* stopping, int* after, uint64_t t0, uint64_t s0) {
  if (*(volatile int*)stopping && sim_now() - t0 > sim_steps() - s0 + 1000) (*(volatile int*)after)++;
}
