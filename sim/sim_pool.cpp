// Thread pool and queue scenarios (real code: altro/common/threadpool.*, threadsafe_queue.hpp).
#include "pool_common.h"
#include <sys/mman.h>
#include <atomic>
#include <chrono>
#include <cstring>
#include <functional>
#include <memory>
#include <new>
#include <stdexcept>
#include <system_error>
#include <thread>
#include "altro/common/threadpool.hpp"
#include "altro/common/threadsafe_queue.hpp"

namespace {
using altro::ThreadPool;

// ---------------------------------------------------------------- bookkeeping (invisible to the detector)
constexpr int MAXT = 60000;
struct Book {
  int runs[MAXT], done[MAXT], dropped[MAXT], threw[MAXT], late[MAXT];
  int active, started, finished, submitted;
  int bad_payload;
  uint64_t tdone[MAXT];                       // when a task finished
  int stopping, after_stop;                   // StopThreads is running; tasks that began although the call was already waiting
  uint64_t stop_t0, stop_s0;
};
Book* B;
void book_init() { B = (Book*)mmap(nullptr, sizeof(Book), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }

struct TaskError : std::runtime_error { explicit TaskError(int i) : std::runtime_error("task failed"), id(i) {} int id; };

// the memory effects of the tasks: ordinary memory, seen by the race detector
struct Effects { std::vector<int> out; };

struct TaskFn {
  int id;
  int work;
  int64_t stall;
  int act;
  std::shared_ptr<int> payload;
  Effects* eff;
  void operator()() const {
    rec_add32(&B->active, 1);
    rec_add32(&B->started, 1);
    rec_add32(&B->runs[id], 1);
    sim_event(0x200, id, 0);
    rec_pool_begin(&B->stopping, &B->after_stop, B->stop_t0, B->stop_s0);
    if (*payload != id * 3 + 1) rec_add32(&B->bad_payload, 1);
    volatile int acc = 0;
    for (int i = 0; i < work; ++i) acc = acc + i;
    if (stall > 0) { sim_fault_fired(F_STALL); sim_sleep((uint64_t)stall); }
    if (eff) eff->out[id] = id * 7 + 3;
    sim_event(0x201, id, 0);
    rec_add32(&B->active, -1);
    rec_add32(&B->finished, 1);
    rec_stamp(&B->tdone[id]);
    rec_add32(&B->done[id], 1);
    if (act) { sim_fault_fired(F_TASK_THROW); rec_add32(&B->threw[id], 1); throw TaskError(id); }
  }
};

// Wait() may return nothing or a flag that is false after a timeout
template <class P> auto do_wait(P& pool, int) -> typename std::enable_if<std::is_same<decltype(pool.Wait()), bool>::value, int>::type { return pool.Wait() ? 1 : 0; }
template <class P> int do_wait(P& pool, long) { pool.Wait(); return -1; }

struct Env {
  const Plan& p;
  int flavour;
  std::unique_ptr<ThreadPool> pool;
  std::vector<std::unique_ptr<ThreadPool>> graveyard;
  Effects eff;
  int64_t timeout = 10000000000ll;
  int confirmed = 0;   // tasks known to be finished by an earlier Wait
  Env(const Plan& pp, int f) : p(pp), flavour(f) {}
};

int queued_not_run(int from, int to) {
  int n = 0;
  for (int i = from; i < to; ++i) if (!rec_get32(&B->runs[i]) && !rec_get32(&B->dropped[i])) n++;
  return n;
}
void check_once(const char* where) {
  for (int i = 0; i < B->submitted; ++i)
    if (rec_get32(&B->runs[i]) > 1) sim_violation("ran-twice", "task %d ran %d times (%s);", i, B->runs[i], where);
  if (B->bad_payload) sim_violation("wrong-state", "a task ran with the state of another task (%s);", where);
}
void check_stopped(const char* where, int live = 1) {
  if (rec_get32(&B->active) != 0) sim_violation("running-after-stop", "%d task(s) still running after %s returned;", B->active, where);
  int st = rec_get32(&B->started);
  sim_preempt();
  for (int i = 0; i < 20; ++i) std::this_thread::yield();
  sim_sleep(50000000000ull);
  if (rec_get32(&B->started) != st) sim_violation("started-after-stop", "a task started after %s returned;", where);
  if (sim_live_threads() != live) sim_violation("thread-left", "%d thread(s) still alive after %s returned;", sim_live_threads() - live, where);
}

// Adds one task; returns false if the call failed with an exception.
bool add_task(Env& e, const Item& it, bool may_fail) {
  int id = B->submitted;
  if (id >= MAXT) return false;
  sim_suppress_faults(1);
  TaskFn f{id, (int)it.at(1), it.at(2), (int)it.at(3), std::make_shared<int>(id * 3 + 1), id < (int)e.eff.out.size() ? &e.eff : nullptr};
  std::function<void()> fn = f;
  int how = (int)it.at(4);
  sim_suppress_faults(-1);
  B->submitted = id + 1;
  try {
    if (how == 0) e.pool->AddTask(fn);
    else e.pool->AddTask(f);
  } catch (const std::bad_alloc&) {
    if (!may_fail) throw;
    B->dropped[id] = 1;   // the caller was told: not submitted
    return false;
  }
  return true;
}

// One Wait() with its oracle. Returns true if everything submitted has finished.
bool wait_op(Env& e) {
  int n = B->submitted, unfinished = 0;
  bool threw = false;
  for (int i = e.confirmed; i < n; ++i) if (!B->dropped[i]) unfinished++;   // not yet waited for
  uint64_t t0 = sim_now(), s0 = sim_steps();
  int ret = -1;
  try {
    ret = do_wait(*e.pool, 0);
  } catch (const TaskError& x) {
    threw = true;
    // several may have failed: the caller gets the failure of the first of them in the order of submission
    int first = -1;
    for (int i = n - 1; i >= e.confirmed; --i) if (!B->dropped[i] && rec_get32(&B->threw[i])) first = i;
    if (x.id != first) sim_violation("wrong-failure", "Wait reported the failure of task %d, the first that failed is task %d;", x.id, first);
  }
  uint64_t el = sim_now() - t0, slack = (sim_steps() - s0) + 1000;
  sim_event(0x210, (uint64_t)ret, unfinished);
  int left = 0, which = -1;
  for (int i = 0; i < n; ++i) if (!rec_get32(&B->done[i]) && !B->dropped[i]) { left++; which = i; }
  if (!e.p.s("freeze", 0) && (ret == 0 || (left && ret < 0))) {
    // some task must have taken longer than the timeout, counted from when those submitted before it had finished
    uint64_t now = t0 + el, from = t0, longest = 0;
    for (int i = e.confirmed; i < n; ++i) {
      if (B->dropped[i]) continue;
      bool fin = rec_get32(&B->done[i]) && B->tdone[i] <= now;
      uint64_t end = fin ? B->tdone[i] : now;
      if (end > from) longest = std::max(longest, end - from);
      if (fin) from = std::max(from, end);
    }
    if (longest + slack < (uint64_t)e.timeout)
      sim_violation("wait-returned-early", "Wait reported a timeout but no task took longer than %llu ns (timeout per task %lld ns, %d unfinished);", (unsigned long long)longest, (long long)e.timeout, unfinished);
  }
  if (left) {
    sim_fault_fired(F_TIMEOUT);
    if (el < (uint64_t)e.timeout)
      sim_violation("wait-returned-early", "Wait returned after %llu ns (timeout per task %lld ns)%s but task %d has not finished (%d left);",
                    (unsigned long long)el, (long long)e.timeout, threw ? " with an exception" : "", which, left);
    if (ret == 1) sim_violation("wait-returned-early", "Wait reported no timeout but task %d has not finished (%d left);", which, left);
  } else if (ret == 1 || threw) {
    for (int i = 0; i < n; ++i)
      if (i < (int)e.eff.out.size() && !B->dropped[i] && e.eff.out[i] != i * 7 + 3) sim_violation("lost-effect", "the memory effect of finished task %d is not visible after Wait;", i);
  }
  if (el > (uint64_t)e.timeout * (uint64_t)unfinished + slack)
    sim_violation("wait-too-long", "Wait blocked for %llu ns with %d unfinished tasks and a timeout of %lld ns per task;", (unsigned long long)el, unfinished, (long long)e.timeout);
  if (!left && (ret == 1 || threw)) e.confirmed = n;
  check_once("after Wait");
  return left == 0;
}
}  // namespace

void pool_gen(Rng& r, Plan& p, int fl) {
  p.cfg["fam"] = 0;
  bool faults = !r.chance(0.2);
  double pstall = faults ? (fl == 4 ? 0.5 : 0.15) : 0, pthrow = faults ? 0.12 : 0;
  int64_t timeout = 10000000000ll;
  if (fl == 4 || fl == 5) {
    static const int64_t ts[] = {1, 1000, 100000, 1000000, 1000000000, 10000000000ll};
    timeout = r.chance(0.7) ? ts[r.range(0, 5)] : timeout;
  }
  p.cfg["timeout"] = timeout;
  p.cfg["ctor_move"] = r.chance(0.1);
  auto add = [&](int n) {
    for (int i = 0; i < n; ++i) {
      int64_t stall = 0;
      if (r.chance(pstall)) {
        int k = r.pick({4, 3, 2, 1, 1});
        stall = k == 0 ? r.range(1, 1000) : k == 1 ? r.range(1000, 100000) : k == 2 ? timeout - r.range(-2000, 2000) : k == 3 ? timeout * r.range(1, 3) + r.range(0, 100) : r.range(1, 30) * 1000000000ll;
        if (stall < 0) stall = 1;
      }
      p.ops.push_back(Item{"add", {0, r.chance(0.7) ? r.range(0, 4) : r.range(0, 60), stall, r.chance(pthrow), r.range(0, 1)}});
    }
  };
  bool running = false;
  int nops = (int)r.range(1, fl == 4 ? 6 : 8);
  int64_t maxthr = r.chance(0.8) ? 4 : 9;
  for (int i = 0; i < nops; ++i) {
    switch (r.pick({4, 3, (fl == 4 ? 4.0 : 2.0), 2, (fl == 19 ? 4.0 : 0.7), (fl == 19 ? 4.0 : 0.7), (fl == 4 ? 1.5 : 0.3), 0.6, 0.5})) {
      case 0: add((int)(r.chance(0.9) ? r.range(1, 5) : r.range(6, 30))); break;
      case 1: if (!running) { p.ops.push_back(Item{"launch", {r.range(1, maxthr)}}); running = true; } else { p.ops.push_back(Item{"stop", {}}); running = false; } break;
      case 2: p.ops.push_back(Item{"wait", {}}); break;
      case 3: p.ops.push_back(Item{"stop", {}}); running = false; break;
      case 4: p.ops.push_back(Item{"move_ctor", {r.range(0, 1)}}); break;
      case 5: p.ops.push_back(Item{"move_assign", {r.range(0, 3), r.range(0, 7)}}); break;
      case 6: p.ops.push_back(Item{"timeout", {r.range(1, 3000000)}}); break;
      case 7: p.ops.push_back(Item{"pause", {r.range(1, 5000000)}}); break;
      case 8: p.ops.push_back(Item{"count", {}}); break;
    }
    if (r.chance(0.5)) add((int)r.range(1, 4));
  }
  if (fl == 4 && !running) { p.ops.push_back(Item{"launch", {r.range(1, maxthr)}}); add((int)r.range(1, 4)); p.ops.push_back(Item{"wait", {}}); }
  if (fl == 5) {
    if (r.chance(0.35)) p.faults.push_back(Item{"thread_create", {r.range(1, 6)}});
    if (r.chance(0.01)) p.ops.push_back(Item{"bulk", {60000}});
    p.ops.push_back(Item{r.chance(0.5) ? "destroy" : "stop", {}});
  }
  if (faults && r.chance(0.2)) {   // threads that are not run for a long time, wherever they are
    static const double prob[] = {0.3, 0.05, 0.01, 0.002};
    p.sched["freeze"] = prob[r.range(0, 3)];
    p.sched["freeze_ns"] = (double)(r.chance(0.5) ? r.range(1000, 10000000) : timeout + r.range(-1000, 100000));
    if (p.sched["freeze_ns"] < 1) p.sched["freeze_ns"] = 1;
  }
  if (r.chance(fl == 4 ? 0.4 : 0.05)) {
    int64_t by = r.chance(0.5) ? timeout + r.range(0, 1000000) : r.range(1, 100000) * 1000000ll;
    p.faults.push_back(Item{"wall", {r.range(1, r.chance(0.5) ? 2000 : 30000), r.chance(0.7) ? by : -by}});
  }
  if (fl == 16) {
    p.faults.push_back(Item{"alloc", {r.range(1, r.chance(0.5) ? 20 : 120), r.chance(0.7) ? 0 : -1}});
  }
}

void pool_run(const Plan& p, int fl) {
  book_init();
  Env e(p, fl);
  e.eff.out.resize(p.ops.size() + 8);
  e.pool = std::make_unique<ThreadPool>();
  e.timeout = p.c("timeout", 10000000000ll);
  e.pool->SetTimeoutPerTask(std::chrono::nanoseconds(e.timeout));
  bool fault_create = false, fault_alloc = false;
  for (auto& f : p.faults) {
    if (f.name == "wall") sim_wallclock_jump_at((uint64_t)f.at(0), f.at(1));
    if (f.name == "thread_create") { sim_fail_thread_create((int)f.at(0)); fault_create = true; }
    if (f.name == "alloc") { sim_fail_alloc(f.at(0), (int)f.at(1)); fault_alloc = true; }
  }
  auto launch = [&](int n) {
    if (e.pool->IsRunning()) return;
    try {
      e.pool->LaunchThreads(n);
    } catch (const std::system_error&) {
      if (!fault_create) throw;
      sim_event(0x220, 1, 0);
      if (e.pool->IsRunning()) sim_violation("bad-state", "the pool claims to run after a failed launch;");
      if (e.pool->NumThreads() != 0) sim_violation("bad-state", "the pool has %d threads after a failed launch;", (int)e.pool->NumThreads());
      check_stopped("a failed launch");
    } catch (const std::bad_alloc&) {
      if (!fault_alloc) throw;
      sim_event(0x220, 2, 0);
      if (e.pool->IsRunning()) sim_violation("bad-state", "the pool claims to run after a failed launch;");
      check_stopped("a failed launch");
    }
    if (e.pool->IsRunning() && (int)e.pool->NumThreads() != n) sim_violation("bad-state", "launched %d threads, the pool reports %d;", n, (int)e.pool->NumThreads());
  };
  auto stop = [&]() {
    int nthr = (int)e.pool->NumThreads();
    B->after_stop = 0; B->stop_t0 = sim_now(); B->stop_s0 = sim_steps(); B->stopping = 1;
    e.pool->StopThreads();
    B->stopping = 0;
    // a task may begin while the call is on its way, but not one after the other
    if (B->after_stop > nthr) sim_violation("started-while-stopping", "%d tasks began while StopThreads was already waiting for the %d threads;", B->after_stop, nthr);
    if (e.pool->IsRunning() || e.pool->NumThreads() != 0) sim_violation("bad-state", "the pool is not stopped after StopThreads;");
    check_stopped("StopThreads");
    check_once("after StopThreads");
    size_t want = (size_t)queued_not_run(0, B->submitted), got = e.pool->NumTasks();
    if (want != got) sim_violation("lost-task", "%zu tasks have neither run nor been dropped but %zu are queued after the stop;", want, got);
  };
  auto drop_pending = [&]() { for (int i = 0; i < B->submitted; ++i) if (!B->runs[i]) B->dropped[i] = 1; };
  for (auto& op : p.ops) {
    sim_event(0x230, op.name[0], op.at(0));
    try {
      if (op.name == "add") add_task(e, op, fault_alloc);
      else if (op.name == "bulk") {   // a long queue must not be destroyed recursively
        sim_ignore(1);
        auto np = std::make_unique<ThreadPool>();
        for (int i = 0; i < op.at(0); ++i) np->AddTask(std::function<void()>([]() {}));
        np.reset();
        sim_ignore(-1);
      }
      else if (op.name == "launch") launch((int)op.at(0));
      else if (op.name == "stop") stop();
      else if (op.name == "wait") wait_op(e);
      else if (op.name == "timeout") { e.timeout = op.at(0); e.pool->SetTimeoutPerTask(std::chrono::nanoseconds(e.timeout)); }
      else if (op.name == "pause") sim_sleep((uint64_t)op.at(0));
      else if (op.name == "count") {
        size_t nt = e.pool->NumTasks();
        if (nt > (size_t)B->submitted) sim_violation("bad-count", "the pool reports %zu queued tasks of %d submitted;", nt, B->submitted);
      } else if (op.name == "move_ctor") {
        if (e.pool->IsRunning()) stop();
        sim_suppress_faults(1);
        auto np = std::make_unique<ThreadPool>(std::move(*e.pool));
        if (op.at(0)) e.graveyard.push_back(std::move(e.pool));   // the original outlives the new pool
        e.pool = std::move(np);
        sim_suppress_faults(-1);
      } else if (op.name == "move_assign") {
        if (e.pool->IsRunning()) stop();
        sim_suppress_faults(1);
        auto np = std::make_unique<ThreadPool>();
        // the destination may have run before and may hold tasks of its own, which are dropped
        for (int i = 0; i < op.at(0); ++i) np->AddTask(std::function<void()>([]() {}));
        if (op.at(1) & 1) {
          try { np->LaunchThreads(1); np->Wait(); np->StopThreads(); } catch (const std::system_error&) { if (!fault_create) throw; }
          for (int i = 0; i < op.at(0); ++i) np->AddTask(std::function<void()>([]() {}));
        }
        // or still be running, in the middle of a task
        auto begun = std::make_shared<std::atomic<int>>(0), ended = std::make_shared<std::atomic<int>>(0);
        if (op.at(1) & 4) {
          for (int i = 0; i < 2; ++i) np->AddTask(std::function<void()>([begun, ended]() { ++*begun; sim_sleep(1000); ++*ended; }));
          try { np->LaunchThreads(1 + op.at(0) % 2); } catch (const std::system_error&) { if (!fault_create) throw; }
        }
        *np = std::move(*e.pool);
        if (np->IsRunning() || np->NumThreads() != 0) sim_violation("bad-state", "a pool with %d threads claims to run after a stopped one was moved over it;", (int)np->NumThreads());
        if (*begun != *ended) sim_violation("running-after-stop", "%d tasks of a pool are still running after another one was moved over it;", *begun - *ended);
        if (op.at(1) & 2) e.graveyard.push_back(std::move(e.pool));
        e.pool = std::move(np);
        sim_suppress_faults(-1);
      } else if (op.name == "destroy") {
        e.pool.reset();
        check_stopped("the destructor");
        drop_pending();
        sim_suppress_faults(1);
        e.pool = std::make_unique<ThreadPool>();
        sim_suppress_faults(-1);
        e.pool->SetTimeoutPerTask(std::chrono::nanoseconds(e.timeout));
      }
    } catch (const std::bad_alloc&) {
      if (!fault_alloc) throw;
      sim_event(0x221, 0, 0);
    }
  }
  // Faults stop here: everything submitted must still run exactly once.
  sim_fail_thread_create(0);
  sim_fail_alloc(0, -1);
  if (fl == 5 || fl == 16) { if (e.pool->IsRunning()) stop(); }
  if (!e.pool->IsRunning()) launch(2);
  if (!e.pool->IsRunning()) sim_violation("bad-state", "the pool cannot be launched again;");
  // no task may be left behind: the wait is repeated, since a task may outlive the timeout
  for (int round = 0; round < 200; ++round) {
    // (a task that ran out of memory before the faults ended may still have to report it)
    try { if (wait_op(e)) break; } catch (const std::bad_alloc&) { if (!fault_alloc) throw; }
    sim_sleep(1000000000ull);
    if (round == 199) sim_violation("lost-task", "a submitted task never ran although the threads are running;");
  }
  for (int i = 0; i < B->submitted; ++i) {
    if (B->dropped[i]) { if (fl == 16 && B->runs[i] > 1) sim_violation("ran-twice", "task %d;", i); continue; }
    if (rec_get32(&B->runs[i]) != 1) sim_violation(B->runs[i] ? "ran-twice" : "lost-task", "task %d ran %d times;", i, B->runs[i]);
  }
  check_once("at the end");
  // and the pool accepts new tasks
  Item it{"add", {0, 2, 0, 0, 0}};
  add_task(e, it, false);
  int last = B->submitted - 1;
  for (int round = 0; round < 100 && !wait_op(e); ++round) sim_sleep(1000000000ull);
  if (B->runs[last] != 1) sim_violation("lost-task", "a task added at the end did not run;");
  e.pool.reset();
  check_stopped("the destructor");
  e.graveyard.clear();
}

// ---------------------------------------------------------------- queue
namespace {
struct Val { int id = -1; std::unique_ptr<int> payload; };
struct QOp { int kind, arg, res, tid; uint64_t inv, ret; };   // 0 push 1 pop 2 empty 3 size 4 clear
struct Hist { QOp op[64]; int n; };
Hist* H;
struct Lin {
  std::vector<QOp> ops;
  std::map<std::pair<uint64_t, std::vector<int>>, bool> seen;
  long budget = 60000;
  bool go(uint64_t mask, std::vector<int>& q, size_t head) {
    size_t n = ops.size();
    if (--budget < 0) { sim_probe(1); return true; }   // undecided within the budget: not a violation
    if (mask == (n == 64 ? ~0ull : (1ull << n) - 1)) return true;
    std::vector<int> key(q.begin() + head, q.end());
    if (!seen.insert({{mask, key}, true}).second) return false;
    uint64_t minret = ~0ull;
    for (size_t i = 0; i < n; ++i) if (!(mask >> i & 1) && ops[i].ret < minret) minret = ops[i].ret;
    for (size_t i = 0; i < n; ++i) {
      if (mask >> i & 1) continue;
      const QOp& o = ops[i];
      if (o.inv > minret) continue;
      if (o.kind == 0) {
        q.push_back(o.arg);
        if (go(mask | 1ull << i, q, head)) return true;
        q.pop_back();
      } else if (o.kind == 1) {
        if (o.res < 0) { if (head == q.size() && go(mask | 1ull << i, q, head)) return true; }
        else if (head < q.size() && q[head] == o.res) { std::vector<int> q2(q.begin() + head + 1, q.end()); if (go(mask | 1ull << i, q2, 0)) return true; }
      } else {
        if (o.kind == 4) { std::vector<int> none; if (go(mask | 1ull << i, none, 0)) return true; continue; }   // clear
        if ((o.res != 0) == (head == q.size()) && go(mask | 1ull << i, q, head)) return true;
      }
    }
    return false;
  }
};
}  // namespace

void queue_gen(Rng& r, Plan& p) {
  p.cfg["fam"] = 1;
  int nthr = (int)r.range(2, 4);
  p.cfg["threads"] = nthr;
  p.cfg["initial"] = r.range(0, 3);
  p.cfg["premove"] = r.pick({3, 1, 1, 1});
  p.cfg["post"] = r.range(0, 5);
  int per = (int)r.range(2, nthr == 2 ? 9 : nthr == 3 ? 6 : 5);
  double clears = r.chance(0.25) ? 0.6 : 0;
  for (int t = 0; t < nthr; ++t) {
    int style = r.pick({3, 1, 1});
    for (int i = 0; i < per; ++i) {
      int k = style == 0 ? r.pick({3, 3, 0.7, 1, clears}) : style == 1 ? r.pick({5, 0, 0.5, 0.5}) : r.pick({0, 5, 0.5, 0.5, clears});
      p.ops.push_back(Item{"q", {t, k}});
    }
  }
  if (r.chance(0.01)) p.cfg["bulk"] = 20000;
}

void queue_run(const Plan& p) {
  using Queue = altro::ThreadSafeQueue<Val>;
  H = (Hist*)mmap(nullptr, sizeof(Hist), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  std::unique_ptr<Queue> q = std::make_unique<Queue>();
  std::unique_ptr<Queue> old;
  int next = 0;
  auto push = [&](Queue& qq, int id) { Val v; v.id = id; v.payload = std::make_unique<int>(id * 5 + 2); qq.Push(std::move(v)); };
  // sequential part: clear and move
  std::vector<int> model;
  for (int i = 0; i < p.c("initial"); ++i) { push(*q, next); model.push_back(next++); }
  int pm = (int)p.c("premove");
  auto expect_size = [&](Queue& qq, size_t n, const char* where) {
    if (qq.Size() != n) sim_violation("bad-size", "Size() is %zu instead of %zu %s;", qq.Size(), n, where);
    if (qq.IsEmpty() != (n == 0)) sim_violation("bad-size", "IsEmpty() is wrong with %zu elements %s;", n, where);
  };
  if (pm == 1) { auto n = std::make_unique<Queue>(std::move(*q)); old = std::move(q); q = std::move(n); }
  if (pm == 2) { auto n = std::make_unique<Queue>(); push(*n, 1000); push(*n, 1001); *n = std::move(*q); old = std::move(q); q = std::move(n); }
  if (pm == 3) { q->Clear(); model.clear(); expect_size(*q, 0, "after Clear"); for (int i = 0; i < p.c("initial"); ++i) { push(*q, next); model.push_back(next++); } }
  expect_size(*q, model.size(), "before the threads start");
  int nthr = (int)p.c("threads", 2);
  std::vector<std::vector<int>> prog(nthr);
  std::vector<std::vector<QOp>> hist(nthr);
  for (auto& o : p.ops) if (o.name == "q" && o.at(0) < nthr) prog[o.at(0)].push_back((int)o.at(1));
  std::vector<std::thread> ts;
  int base = next;
  for (int t = 0; t < nthr; ++t) {
    hist[t].reserve(16);
    ts.emplace_back([&, t]() {
      for (size_t i = 0; i < prog[t].size(); ++i) {
        QOp o;
        memset(&o, 0, sizeof o);
        o.kind = prog[t][i];
        o.tid = t;
        o.arg = base + t * 100 + (int)i;
        o.inv = sim_event(0x300 + o.kind, t, i);
        if (o.kind == 0) { push(*q, o.arg); }
        else if (o.kind == 1) {
          Val v;
          bool ok = q->TryPop(v);
          o.res = ok ? v.id : -1;
          if (ok && (!v.payload || *v.payload != v.id * 5 + 2)) sim_violation("corrupt-value", "popped value %d is damaged;", v.id);
        } else if (o.kind == 2) o.res = q->IsEmpty();
        else if (o.kind == 4) q->Clear();
        else { size_t s = q->Size(); o.res = s > 1000000 ? -1 : (int)s; }
        o.ret = sim_event(0x310 + o.kind, (uint64_t)(int64_t)o.res, i);
        hist[t].push_back(o);
      }
    });
  }
  for (auto& t : ts) t.join();
  sim_ignore(1);
  Lin lin;
  std::vector<QOp> all;
  for (auto& h : hist) for (auto& o : h) all.push_back(o);
  for (auto& o : all) if (o.kind != 3) lin.ops.push_back(o);
  int pushes = (int)model.size(), pops = 0;
  bool clears = false;
  for (auto& o : all) { if (o.kind == 0) pushes++; if (o.kind == 1 && o.res >= 0) pops++; if (o.kind == 4) clears = true; }
  struct Life { uint64_t inv = 0, ret = 0; uint64_t popped = ~0ull; };   // push interval; when its pop had returned at the latest
  std::map<int, Life> life;
  for (size_t i = 0; i < model.size(); ++i) { Life l; l.inv = l.ret = 0; life[model[i]] = l; }
  for (auto& o : all) if (o.kind == 0) { Life l; l.inv = o.inv; l.ret = o.ret; life[o.arg] = l; }
  for (auto& o : all) if (o.kind == 1 && o.res >= 0 && life.count(o.res)) life[o.res].popped = o.ret;
  auto before = [&](int v, const Life& a, int w, const Life& b) {   // a certainly entered the queue before b
    return a.ret == 0 && b.ret == 0 ? v < w : a.ret < b.inv;
  };
  for (auto& s : all) if (s.kind == 3) {
    // A value has certainly left when its own pop has returned, when a value behind it has left, or when the
    // queue was seen empty (or cleared) by a call made after its push had returned.
    int up = 0, lo = (int)model.size();
    for (auto& l : life) {
      if (l.second.ret != 0 && l.second.inv >= s.ret) continue;
      bool gone = l.second.popped < s.inv;
      for (auto& m : life) gone = gone || (m.second.popped < s.inv && before(l.first, l.second, m.first, m.second));
      for (auto& o : all) {
        bool empty = o.kind == 4 || (o.kind == 2 && o.res) || (o.kind == 1 && o.res < 0);
        gone = gone || (empty && o.ret < s.inv && l.second.ret < o.inv);
      }
      if (!gone) up++;
    }
    for (auto& o : all) {
      if (o.kind == 0 && o.ret < s.inv) lo++;
      if (o.kind == 1 && o.res >= 0 && o.inv < s.ret) lo--;
      if (o.kind == 4 && o.inv < s.ret) lo = -1000;
    }
    if (s.res < 0) sim_violation("bad-size", "Size() underflowed;");
    if (s.res > up || s.res < lo) sim_violation("bad-size", "Size() returned %d, possible range [%d, %d];", s.res, std::max(lo, 0), up);
  }
  std::vector<int> q0 = model;
  if (!lin.go(0, q0, 0)) {
    std::string h;
    for (auto& o : all) {
      char b[80];
      static const char* nm[] = {"push", "pop", "empty", "size", "clear"};
      snprintf(b, sizeof b, " t%d:%s(%d)=%d[%llu,%llu]", o.tid, nm[o.kind], o.kind == 0 ? o.arg : 0, o.res, (unsigned long long)o.inv, (unsigned long long)o.ret);
      h += b;
    }
    sim_violation("not-linearizable", "no sequential FIFO order explains the history:%s;", h.c_str());
  }
  sim_ignore(-1);
  int left = clears ? (int)q->Size() : pushes - pops;
  if (left < 0 || left > pushes - pops) sim_violation("bad-size", "Size() is %d with %d values pushed and %d popped;", left, pushes, pops);
  expect_size(*q, (size_t)left, "when all operations have finished");
  int post = (int)p.c("post");
  if (post == 1) { q->Clear(); expect_size(*q, 0, "after Clear"); left = 0; }
  if (post == 2) { auto n = std::make_unique<Queue>(std::move(*q)); q.reset(); q = std::move(n); }
  if (post == 3) { auto n = std::make_unique<Queue>(); push(*n, 1000); *n = std::move(*q); q.reset(); q = std::move(n); }
  if (post == 4) { Queue n(std::move(*q)); *q = std::move(n); }
  if (post != 5) {
    expect_size(*q, (size_t)left, "after the move");
    push(*q, 7777);
    int cnt = 0, last = -1;
    Val v;
    while (q->TryPop(v)) { cnt++; last = v.id; if (!v.payload || *v.payload != v.id * 5 + 2) sim_violation("corrupt-value", "popped value %d is damaged;", v.id); }
    if (cnt != left + 1 || last != 7777) sim_violation("lost-value", "%d values left instead of %d;", cnt, left + 1);
    expect_size(*q, 0, "after draining");
  }
  if (p.c("bulk")) { sim_ignore(1); for (int i = 0; i < p.c("bulk"); ++i) push(*q, i); sim_ignore(-1); }
}

namespace {
void g3(Rng& r, Plan& p) { pool_gen(r, p, 3); }
void r3(const Plan& p) { pool_run(p, 3); }
void g4(Rng& r, Plan& p) { pool_gen(r, p, 4); }
void r4(const Plan& p) { pool_run(p, 4); }
void g5(Rng& r, Plan& p) { pool_gen(r, p, 5); }
void r5(const Plan& p) { pool_run(p, 5); }
Register c03("C03", g3, r3, 0, 3e6), c04("C04", g4, r4, 1, 3e6), c05("C05", g5, r5, 1, 3e6), c06("C06", queue_gen, queue_run, 1, 3e6);
}  // namespace
