From 80cd6be733a1b7a88a120fe5a46c068e404e85d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:18 +0000
Subject: [PATCH 01/42] fix: ThreadSafeQueue::Clear locked its own mutex again
 and kept the old size

Clear (and so every move assignment) deadlocked in IsEmpty, a moved-from
queue could not be assigned to, and the reported size was not reset.
---
 altro/common/threadsafe_queue.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/altro/common/threadsafe_queue.hpp b/altro/common/threadsafe_queue.hpp
index 68b3be1..f8f57c7 100644
--- a/altro/common/threadsafe_queue.hpp
+++ b/altro/common/threadsafe_queue.hpp
@@ -129,8 +129,12 @@ bool ThreadSafeQueue<T>::IsEmpty() {
 
 template <class T>
 void ThreadSafeQueue<T>::Clear() {
+  if (!head_mutex_) {  // moved-from queue
+    return;
+  }
   std::lock_guard<std::mutex> head_lock(*head_mutex_);
-  while (!IsEmpty()) {
+  while (head_.get() != GetTail()) {
+    --(*size_);
     PopHead();
   }
 }
-- 
2.43.0


From b83038a90b17d873d369e471200ac88da8668135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:18 +0000
Subject: [PATCH 02/42] fix: ThreadSafeQueue::Size could wrap around below zero

The size was incremented after the element was published, so that another
thread could pop it and decrement the size first.
---
 altro/common/threadsafe_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/altro/common/threadsafe_queue.hpp b/altro/common/threadsafe_queue.hpp
index f8f57c7..1a7bba4 100644
--- a/altro/common/threadsafe_queue.hpp
+++ b/altro/common/threadsafe_queue.hpp
@@ -105,13 +105,13 @@ void ThreadSafeQueue<T>::Push(T new_value) {
   {
     std::lock_guard<std::mutex> tail_lock(*tail_mutex_);  // lock the tail
     tail_->data = new_data;                               // assign data into current tail
+    ++(*size_);  // before the element can be popped
 
     // assign new tail
     Node* const new_tail = new_tail_node.get();
     tail_->next = std::move(new_tail_node);
     tail_ = new_tail;
   }
-  ++(*size_);
   data_cond_->notify_one();  // wake up 1 thread to process the new data
 }
 
-- 
2.43.0


From afda9d0ac4d98eea2f827fb177e176b04f50e889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:18 +0000
Subject: [PATCH 03/42] fix: destroying a queue with many elements overflowed
 the stack

The chain of unique_ptr nodes was destroyed recursively.
---
 altro/common/threadsafe_queue.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/altro/common/threadsafe_queue.hpp b/altro/common/threadsafe_queue.hpp
index 1a7bba4..4c33607 100644
--- a/altro/common/threadsafe_queue.hpp
+++ b/altro/common/threadsafe_queue.hpp
@@ -31,6 +31,8 @@ class ThreadSafeQueue {
         tail_(head_.get()),
         data_cond_(std::make_unique<std::condition_variable>()) {}
 
+  ~ThreadSafeQueue() { Clear(); }  // frees the nodes one by one instead of recursively
+
   // Disallow copying
   ThreadSafeQueue(const ThreadSafeQueue& other) = delete;
   ThreadSafeQueue& operator=(const ThreadSafeQueue& other) = delete;
-- 
2.43.0


From 4a41055d7e78aa8fbdec694980d5772fbd45d51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:18 +0000
Subject: [PATCH 04/42] fix: a failing thread creation in LaunchThreads
 terminated the process

The threads created before the failure were never joined.
---
 altro/common/threadpool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/altro/common/threadpool.cpp b/altro/common/threadpool.cpp
index 3dd6fc8..af5a6a2 100644
--- a/altro/common/threadpool.cpp
+++ b/altro/common/threadpool.cpp
@@ -52,7 +52,7 @@ void ThreadPool::LaunchThreads(int nthreads) {
       threads_.emplace_back(kernel);
     }
   } catch (...) {
-    is_running_ = false;
+    StopThreads();  // join the threads that were created
     throw;
   }
 }
-- 
2.43.0


From d5f5b52ee2223de18c2d8c619bcf96191039a458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:18 +0000
Subject: [PATCH 05/42] fix: moving a pool over a running pool terminated the
 process

---
 altro/common/threadpool.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/altro/common/threadpool.cpp b/altro/common/threadpool.cpp
index af5a6a2..8b790a5 100644
--- a/altro/common/threadpool.cpp
+++ b/altro/common/threadpool.cpp
@@ -20,6 +20,7 @@ ThreadPool::ThreadPool(ThreadPool&& other) noexcept
 
 ThreadPool& ThreadPool::operator=(ThreadPool&& other) noexcept {
   ALTRO_ASSERT(!other.IsRunning(), "Cannot move a pool while it's running");
+  StopThreads();
   is_running_ = static_cast<bool>(other.is_running_);
   threads_ = std::move(other.threads_);
   futures_ = std::move(other.futures_);
-- 
2.43.0


From 53b03394bdc1d0b2232a47e51635381c3fcbdccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:49 +0000
Subject: [PATCH 06/42] fix: after a task timeout the pool and the solver went
 on without the task

Wait forgot the tasks that had timed out, so that the next Wait returned while
they were still running, and the solver used incomplete expansions while the
workers were still writing them.
---
 altro/common/threadpool.cpp | 9 +++++++--
 altro/common/threadpool.hpp | 5 ++++-
 altro/ilqr/ilqr.hpp         | 3 ++-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/altro/common/threadpool.cpp b/altro/common/threadpool.cpp
index 8b790a5..5215a64 100644
--- a/altro/common/threadpool.cpp
+++ b/altro/common/threadpool.cpp
@@ -29,14 +29,19 @@ ThreadPool& ThreadPool::operator=(ThreadPool&& other) noexcept {
   return *this;
 }
 
-void ThreadPool::Wait() {
+bool ThreadPool::Wait() {
+  bool is_finished = true;
   for (const std::future<void>& future : futures_) {
     std::future_status status = future.wait_for(timeout_);
     if (status == std::future_status::timeout) {
       fmt::print("Task timed out after {}\n", timeout_);
+      is_finished = false;
     }
   }
-  futures_.clear();
+  if (is_finished) {
+    futures_.clear();
+  }
+  return is_finished;
 }
 
 void ThreadPool::LaunchThreads(int nthreads) {
diff --git a/altro/common/threadpool.hpp b/altro/common/threadpool.hpp
index f8dbc68..8f25485 100644
--- a/altro/common/threadpool.hpp
+++ b/altro/common/threadpool.hpp
@@ -89,9 +89,12 @@ class ThreadPool {
   /**
    * @brief Wait for all the tasks in the queue to finish.
    *
+   * Waits for each task at most as long as the timeout per task.
    *
+   * @return true if all the tasks have finished, false if the timeout elapsed for
+   * at least one task. The tasks are still waited for by the next call to `Wait`.
    */
-  void Wait();
+  bool Wait();
 
   /**
    * @brief Launch the threadpool
diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 1425ea3..7138790 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -361,7 +361,8 @@ class iLQR {
           pool_.AddTask(task);
         }
       }
-      pool_.Wait();
+      while (!pool_.Wait()) {
+      }
     }
   }
 
-- 
2.43.0


From 4561c04a08d27d219b0d1bc4ac07b9fc65246f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:49 +0000
Subject: [PATCH 07/42] fix: exceptions thrown by tasks of the thread pool were
 lost

A multi-threaded solve silently used incomplete expansions when a user
function threw, while a single-threaded solve reports the exception.
---
 altro/common/threadpool.cpp | 24 +++++++++++++++++++++---
 altro/common/threadpool.hpp |  3 +++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/altro/common/threadpool.cpp b/altro/common/threadpool.cpp
index 5215a64..1a914de 100644
--- a/altro/common/threadpool.cpp
+++ b/altro/common/threadpool.cpp
@@ -1,5 +1,7 @@
 // Copyright [2021] Optimus Ride Inc.
 
+#include <exception>
+
 #include <fmt/format.h>
 #include <fmt/chrono.h>
 
@@ -38,10 +40,26 @@ bool ThreadPool::Wait() {
       is_finished = false;
     }
   }
-  if (is_finished) {
-    futures_.clear();
+  if (!is_finished) {
+    return false;
+  }
+
+  // Pass on the exception of the first task that failed
+  std::exception_ptr error;
+  for (std::future<void>& future : futures_) {
+    try {
+      future.get();
+    } catch (...) {
+      if (!error) {
+        error = std::current_exception();
+      }
+    }
+  }
+  futures_.clear();
+  if (error) {
+    std::rethrow_exception(error);
   }
-  return is_finished;
+  return true;
 }
 
 void ThreadPool::LaunchThreads(int nthreads) {
diff --git a/altro/common/threadpool.hpp b/altro/common/threadpool.hpp
index 8f25485..fdbdb1d 100644
--- a/altro/common/threadpool.hpp
+++ b/altro/common/threadpool.hpp
@@ -93,6 +93,9 @@ class ThreadPool {
    *
    * @return true if all the tasks have finished, false if the timeout elapsed for
    * at least one task. The tasks are still waited for by the next call to `Wait`.
+   *
+   * @throws Once all the tasks have finished, the exception thrown by the first task
+   * (in the order they were added) that failed.
    */
   bool Wait();
 
-- 
2.43.0


From f0ab28f2d415afd4c23cf729bc41371f2c8d08fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:49 +0000
Subject: [PATCH 08/42] fix: a task that could not be queued was still waited
 for

AddTask left the future behind when Push ran out of memory.
---
 altro/common/threadpool.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/altro/common/threadpool.hpp b/altro/common/threadpool.hpp
index fdbdb1d..0eac16e 100644
--- a/altro/common/threadpool.hpp
+++ b/altro/common/threadpool.hpp
@@ -70,7 +70,12 @@ class ThreadPool {
   void AddTask(const Task& task) {
     std::packaged_task<void()> ptask(task);
     futures_.emplace_back(ptask.get_future());
-    queue_.Push(std::move(ptask));
+    try {
+      queue_.Push(std::move(ptask));
+    } catch (...) {
+      futures_.pop_back();  // the task was not submitted
+      throw;
+    }
   }
 
 
-- 
2.43.0


From 48d4896d231cfc26b7ad5b9a5616ac8555cfada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:25 +0000
Subject: [PATCH 09/42] fix: tasks kept running in the background when adding
 another one failed

When memory ran out while submitting the expansion tasks, the exception left
the solve while worker threads were still using the solver's data.
---
 altro/ilqr/ilqr.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 7138790..87bc56f 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -357,8 +357,18 @@ class iLQR {
     } else {
       {
         Stopwatch sw2 = stats_.GetTimer()->Start("add_tasks");
-        for (const std::function<void()>& task : tasks_) {
-          pool_.AddTask(task);
+        try {
+          for (const std::function<void()>& task : tasks_) {
+            pool_.AddTask(task);
+          }
+        } catch (...) {
+          // Let the tasks that have been added finish before reporting the failure
+          try {
+            while (!pool_.Wait()) {
+            }
+          } catch (...) {
+          }
+          throw;
         }
       }
       while (!pool_.Wait()) {
-- 
2.43.0


From a22402c822a369cc2ef9c4b5ba94172f2147b628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:24 +0000
Subject: [PATCH 10/42] fix: moved SolverStats kept writing into the original's
 vectors

---
 altro/common/solver_stats.cpp | 31 ++++++++++++++++---------------
 altro/common/solver_stats.hpp | 10 ++++++----
 2 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/altro/common/solver_stats.cpp b/altro/common/solver_stats.cpp
index 0094f8b..32c32a6 100644
--- a/altro/common/solver_stats.cpp
+++ b/altro/common/solver_stats.cpp
@@ -9,8 +9,8 @@
 namespace altro {
 
 template <>
-void SolverStats::SetPtr<double>(const LogEntry& entry, std::vector<double>& data) {
-  floats_[entry.GetTitle()] = &data;
+void SolverStats::SetPtr<double>(const LogEntry& entry, std::vector<double> SolverStats::*data) {
+  floats_[entry.GetTitle()] = data;
 }
 
 void SolverStats::SetTolerances(const double& cost, const double& viol, const double& grad) {
@@ -24,7 +24,7 @@ void SolverStats::SetTolerances(const double& cost, const double& viol, const do
 
 void SolverStats::SetCapacity(int n) {
   for (auto kv : floats_) {
-    kv.second->reserve(n);
+    (this->*kv.second).reserve(n);
   }
 }
 
@@ -35,7 +35,7 @@ void SolverStats::Reset() {
   iterations_outer = 0;
   len_ = 0;
   for (auto kv : floats_) {
-    kv.second->clear();
+    (this->*kv.second).clear();
   }
   logger_.Clear();
   
@@ -54,13 +54,14 @@ void SolverStats::Reset() {
 void SolverStats::NewIteration() {
   len_++;
   for (auto& kv : floats_) {
-    kv.second->resize(len_);
+    std::vector<double>& data = this->*kv.second;
+    data.resize(len_);
 
     // Copy data from previous iteration
     if (len_ > 1) {
-      kv.second->back() = kv.second->rbegin()[1];
+      data.back() = data.rbegin()[1];
     } else {
-      kv.second->back() = 0.0;
+      data.back() = 0.0;
     }
   }
 }
@@ -86,30 +87,30 @@ void SolverStats::DefaultLogger() {
       .SetName("iterations_outer")
       .SetLevel(LogLevel::kOuter)
       .SetWidth(8);  // NOLINT(readability-magic-numbers)
-  SetPtr(logger_.AddEntry(-1, "cost", "{:>.4g}"), cost);
-  SetPtr(logger_.AddEntry(-1, "viol", "{:>.3e}").SetName("constraint_violation"), violations);
-  SetPtr(logger_.AddEntry(-1, "dJ", "{:>.2e}").SetName("cost_improvement"), cost_decrease);
-  SetPtr(logger_.AddEntry(-1, "grad", "{:>.2e}").SetName("gradient").SetLevel(LogLevel::kOuterDebug), gradient);
+  SetPtr(logger_.AddEntry(-1, "cost", "{:>.4g}"), &SolverStats::cost);
+  SetPtr(logger_.AddEntry(-1, "viol", "{:>.3e}").SetName("constraint_violation"), &SolverStats::violations);
+  SetPtr(logger_.AddEntry(-1, "dJ", "{:>.2e}").SetName("cost_improvement"), &SolverStats::cost_decrease);
+  SetPtr(logger_.AddEntry(-1, "grad", "{:>.2e}").SetName("gradient").SetLevel(LogLevel::kOuterDebug), &SolverStats::gradient);
   SetPtr(logger_.AddEntry(-1, "alpha", "{:>.2f}")
              .SetName("line_search_step_length")
              .SetLevel(LogLevel::kInner)
              .SetWidth(6),  // NOLINT(readability-magic-numbers)
-         alpha);
+         &SolverStats::alpha);
   SetPtr(logger_.AddEntry(-1, "reg", "{:>.1e}")
              .SetName("regularization")
              .SetLevel(LogLevel::kInnerDebug)
              .SetWidth(7),  // NOLINT(readability-magic-numbers)
-         regularization);
+         &SolverStats::regularization);
   SetPtr(logger_.AddEntry(-1, "z", "{:>.3f}")
              .SetName("cost_improvement_ratio")
              .SetLevel(LogLevel::kInnerDebug)
              .SetWidth(5),  // NOLINT(readability-magic-numbers)
-         improvement_ratio);
+         &SolverStats::improvement_ratio);
   SetPtr(logger_.AddEntry(-1, "pen", "{:>.1e}")
              .SetName("max_penalty")
              .SetLevel(LogLevel::kDebug)
              .SetWidth(7),  // NOLINT(readability-magic-numbers)
-         max_penalty);
+         &SolverStats::max_penalty);
   logger_.SetHeaderColor(fmt::color::yellow);
 }
 
diff --git a/altro/common/solver_stats.hpp b/altro/common/solver_stats.hpp
index 68d1dd8..0932e61 100644
--- a/altro/common/solver_stats.hpp
+++ b/altro/common/solver_stats.hpp
@@ -167,10 +167,11 @@ class SolverStats {
    * 
    * @tparam T Data type of the entry field (doubles or ints).
    * @param entry Entry field to which the data vector is to be associated.
-   * @param data One of the publically-accessible vectors stored in this class.
+   * @param data Pointer to the member that is one of the publically-accessible vectors 
+   * stored in this class.
    */
   template <class T>
-  void SetPtr(const LogEntry& entry, std::vector<T>& data) {
+  void SetPtr(const LogEntry& entry, std::vector<T> SolverStats::*data) {
     ALTRO_UNUSED(entry);
     ALTRO_UNUSED(data);
   }
@@ -181,7 +182,8 @@ class SolverStats {
    */
   void DefaultLogger();
 
-  std::unordered_map<std::string, std::vector<double>*> floats_;
+  // Stores pointers to members, so that the map stays valid when the object is copied or moved
+  std::unordered_map<std::string, std::vector<double> SolverStats::*> floats_;
 
   int len_ = 0;
   SolverLogger logger_;
@@ -198,7 +200,7 @@ void SolverStats::SetData(const std::string& title, T value) {
   // Search for the title
   auto search_float = floats_.find(title);
   if (search_float != floats_.end()) {
-    search_float->second->back() = value;
+    (this->*(search_float->second)).back() = value;
   }
 }
 
-- 
2.43.0


From 63fe863971b7d2aa146eca7804d4dfff5a2ae99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:24 +0000
Subject: [PATCH 11/42] fix: moved solvers referred to the original and lost
 the task assignment

---
 altro/augmented_lagrangian/al_solver.hpp | 18 ++++++++++++++++--
 altro/ilqr/ilqr.hpp                      |  6 +++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/altro/augmented_lagrangian/al_solver.hpp b/altro/augmented_lagrangian/al_solver.hpp
index 7e90171..3a2c7a4 100644
--- a/altro/augmented_lagrangian/al_solver.hpp
+++ b/altro/augmented_lagrangian/al_solver.hpp
@@ -35,6 +35,16 @@ class AugmentedLagrangianiLQR {
   explicit AugmentedLagrangianiLQR(int N) : ilqr_solver_(N), costs_(), max_violation_(N + 1) {}
   explicit AugmentedLagrangianiLQR(const problem::Problem& prob);
 
+  AugmentedLagrangianiLQR(AugmentedLagrangianiLQR&& other) noexcept
+      : ilqr_solver_(std::move(other.ilqr_solver_)),
+        costs_(std::move(other.costs_)),
+        status_(other.status_),
+        max_violation_(std::move(other.max_violation_)) {
+    if (!costs_.empty()) {
+      SetConstraintCallback();  // the callback of the other solver refers to that solver
+    }
+  }
+
   void InitializeFromProblem(const problem::Problem& prob);
 
   /***************************** Getters **************************************/
@@ -217,6 +227,11 @@ class AugmentedLagrangianiLQR {
  private:
   Stopwatch CreateTimer(const std::string& name) { return GetStats().GetTimer()->Start(name); }
 
+  void SetConstraintCallback() {
+    auto max_violation_callback = [this]() -> double { return this->GetMaxViolation(); };
+    ilqr_solver_.SetConstraintCallback(max_violation_callback);
+  }
+
   ilqr::iLQR<n, m> ilqr_solver_;
   std::vector<std::shared_ptr<ALCost<n, m>>> costs_;
   SolverStatus status_ = SolverStatus::kUnsolved;
@@ -244,8 +259,7 @@ void AugmentedLagrangianiLQR<n, m>::InitializeFromProblem(const problem::Problem
                            prob.NumSegments(), costs_.size()));
   // ilqr_solver_.InitializeFromProblem(prob_al);
   ilqr_solver_.CopyFromProblem(prob_al, 0, prob.NumSegments() + 1);
-  auto max_violation_callback = [this]() -> double { return this->GetMaxViolation(); };
-  ilqr_solver_.SetConstraintCallback(max_violation_callback);
+  SetConstraintCallback();
 }
 
 template <int n, int m>
diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 87bc56f..da1ae16 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -68,7 +68,11 @@ class iLQR {
                                 drho_(other.drho_),
                                 deltaV_(std::move(other.deltaV_)),
                                 is_initial_state_set(other.is_initial_state_set),
-                                max_violation_callback_(std::move(other.max_violation_callback_)) {}
+                                custom_work_assignment_(other.custom_work_assignment_),
+                                max_violation_callback_(std::move(other.max_violation_callback_)),
+                                work_inds_(std::move(other.work_inds_)) {
+    // The tasks and threads refer to the other solver, new ones are created by the next solve
+  }
 
   /**
    * @brief Copy the data from a Problem class into the iLQR solver
-- 
2.43.0


From 35ba35a40e690a99c4a911506718db7a77e43d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:24 +0000
Subject: [PATCH 12/42] fix: copied and moved problems had an undefined number
 of segments

---
 altro/problem/problem.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/altro/problem/problem.hpp b/altro/problem/problem.hpp
index 670ff4e..3b5c0cb 100644
--- a/altro/problem/problem.hpp
+++ b/altro/problem/problem.hpp
@@ -77,6 +77,7 @@ class Problem {
       : N_(N), initial_state_(initial_state), costfuns_(N + 1, nullptr), models_(N + 1, nullptr), eq_(N + 1), ineq_(N + 1) {}
 
   Problem& operator=(const Problem& other) {
+    N_ = other.N_;
     *initial_state_ = *(other.initial_state_);
     costfuns_ = other.costfuns_;
     models_ = other.models_;
@@ -86,11 +87,12 @@ class Problem {
   }
 
   Problem(const Problem& other)
-      : costfuns_(other.costfuns_), models_(other.models_), eq_(other.eq_), ineq_(other.ineq_) {
+      : N_(other.N_), costfuns_(other.costfuns_), models_(other.models_), eq_(other.eq_), ineq_(other.ineq_) {
     *initial_state_ = *(other.initial_state_);
   }
 
   Problem& operator=(Problem&& other) {
+    N_ = other.N_;
     *initial_state_ = *(other.initial_state_);
     costfuns_ = std::move(other.costfuns_);
     models_ = std::move(other.models_);
@@ -100,7 +102,8 @@ class Problem {
   }
 
   Problem(Problem&& other)
-      : initial_state_(other.initial_state_),
+      : N_(other.N_),
+        initial_state_(other.initial_state_),
         costfuns_(std::move(other.costfuns_)),
         models_(std::move(other.models_)),
         eq_(std::move(other.eq_)),
-- 
2.43.0


From 511eadc8ba5b8ef2c8ec1823c4d3944f83d139fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:24 +0000
Subject: [PATCH 13/42] fix: Timer leaked its output file and could close the
 standard output

---
 altro/common/timer.cpp | 12 ++++++++++++
 altro/common/timer.hpp |  3 ++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/altro/common/timer.cpp b/altro/common/timer.cpp
index 32367f8..ae62aae 100644
--- a/altro/common/timer.cpp
+++ b/altro/common/timer.cpp
@@ -12,11 +12,22 @@ Timer::~Timer() {
     PrintSummary(); 
   }
   // Close the file if the Timer has ownship
+  CloseFile();
+}
+
+void Timer::CloseFile() {
   if (using_file_) {
     fclose(io_);
+    io_ = stdout;
+    using_file_ = false;
   }
 }
 
+void Timer::SetOutput(FILE* io) {
+  CloseFile();
+  io_ = io;
+}
+
 void Timer::PrintSummary() {
   PrintSummary(&times_);
 }
@@ -106,6 +117,7 @@ Stopwatch Timer::Start(const std::string& name) {
 }
 
 void Timer::SetOutput(const std::string& filename) {
+  CloseFile();  // before opening the new file, which may be the same
   FILE* io = fopen(filename.c_str(), "w");
   if (io == nullptr) {
     std::string errmsg = fmt::format("Error opening profiler file \"{}\". Got errno {}.", filename, errno);
diff --git a/altro/common/timer.hpp b/altro/common/timer.hpp
index 636b6db..c2eb81f 100644
--- a/altro/common/timer.hpp
+++ b/altro/common/timer.hpp
@@ -54,12 +54,13 @@ class Timer : public std::enable_shared_from_this<Timer> {
   void Activate() { active_ = true; }
   void Deactivate() { active_ = false; }
   bool IsActive() const { return active_; }
-  void SetOutput(FILE* io) { io_ = io; }  // ownership of resource remains with user
+  void SetOutput(FILE* io);  // ownership of resource remains with user
   void SetOutput(const std::string& filename);  // takes ownership of the file resource
   friend Stopwatch;  // so that it can populate times_
 
  private:
   Timer() = default;  // Make constructor private so it can only be created as a shared ptr
+  void CloseFile();   // Closes the output file if the Timer has ownership
   std::vector<std::string> stack_;  // current profiler call stack e.g. "al/ilqr/cost"
   std::map<std::string, std::chrono::microseconds> times_;
   bool active_ = false;
-- 
2.43.0


From 9b200861aa9c1e25168bbb582851e388829c4836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:24 +0000
Subject: [PATCH 14/42] fix: profile times were measured with a clock that can
 be set

---
 altro/common/timer.cpp | 4 ++--
 altro/common/timer.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/altro/common/timer.cpp b/altro/common/timer.cpp
index ae62aae..9382d4b 100644
--- a/altro/common/timer.cpp
+++ b/altro/common/timer.cpp
@@ -131,14 +131,14 @@ void Timer::SetOutput(const std::string& filename) {
 
 Stopwatch::Stopwatch(std::string name, std::shared_ptr<Timer> timer) 
     : name_(std::move(name)), 
-      start_(std::chrono::high_resolution_clock::now()), 
+      start_(std::chrono::steady_clock::now()), 
       parent_(std::move(timer)) {}
 
 Stopwatch::~Stopwatch() {
   // NOTE: Parent will be nullptr if the timer is deactivated and Stopwatch is default-constructed.
   if (parent_) {  
     // Record duration and log the time with the parent timer.
-    auto duration = std::chrono::high_resolution_clock::now() - start_;
+    auto duration = std::chrono::steady_clock::now() - start_;
     microseconds us = std::chrono::duration_cast<microseconds>(duration);
     parent_->stack_.pop_back();  // pop the name off the top of the stack (FILO stack)
     parent_->times_[name_] += us;
diff --git a/altro/common/timer.hpp b/altro/common/timer.hpp
index c2eb81f..496ecb2 100644
--- a/altro/common/timer.hpp
+++ b/altro/common/timer.hpp
@@ -91,7 +91,7 @@ class Stopwatch {
 
  private:
   std::string name_;
-  std::chrono::time_point<std::chrono::high_resolution_clock> start_;
+  std::chrono::time_point<std::chrono::steady_clock> start_;
   std::shared_ptr<Timer> parent_;
 };
 
-- 
2.43.0


From 1c083a01b514b27c3d30d2c2588e7e80c1c13353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:24 +0000
Subject: [PATCH 15/42] fix: the percentages of profiles longer than 21 s
 overflowed

---
 altro/common/profile_entry.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/altro/common/profile_entry.cpp b/altro/common/profile_entry.cpp
index ce9d56f..569fb40 100644
--- a/altro/common/profile_entry.cpp
+++ b/altro/common/profile_entry.cpp
@@ -36,13 +36,11 @@ ProfileEntry::Ptr ProfileEntry::GetRoot() {
 void ProfileEntry::CalcStats() {
   time_t total_time = GetRoot()->time;
   time_t parent_time = parent ? parent->time : time;
-  int time_us = time.count();
-  int total_us = total_time.count();
   const int percent_scaling = 100;
-  if (total_us == 0) {
+  if (total_time.count() == 0) {
     percent_total = -1;
   } else {
-    percent_total = percent_scaling * time_us / total_us;
+    percent_total = percent_scaling * time / total_time;
   }
   if (parent_time.count() == 0) {
     percent_parent = -1;
-- 
2.43.0


From 55dd691bcb7d4abd08e941586affac0c6360b222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:24 +0000
Subject: [PATCH 16/42] fix: profile entries could be assigned to the wrong
 parent

---
 altro/common/timer.cpp | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/altro/common/timer.cpp b/altro/common/timer.cpp
index 9382d4b..7c30f88 100644
--- a/altro/common/timer.cpp
+++ b/altro/common/timer.cpp
@@ -37,13 +37,18 @@ void Timer::PrintSummary(std::map<std::string, std::chrono::microseconds>* const
 
   using EntryPtr = std::shared_ptr<ProfileEntry>;
   std::vector<EntryPtr> entries;
-  std::vector<EntryPtr> parents;
+  std::map<std::vector<std::string>, EntryPtr> sorted_entries;
 
   // Add first (top level) entry
   // This is just temporary to provide the total time
-  auto times_iter = times.begin();
   entries.emplace_back(std::make_shared<ProfileEntry>("top", std::chrono::microseconds(0)));
-  parents.emplace_back(entries.front());
+
+  // Sort the entries by the split names, so that an entry always follows its parent
+  // (the order of the full names doesn't do this, e.g. "al", "al-x", "al/ilqr")
+  for (const auto& name_time : times) {
+    EntryPtr entry = std::make_shared<ProfileEntry>(name_time.first, name_time.second);
+    sorted_entries.emplace(entry->name, entry);
+  }
 
   // Add all the logged entries, assigning parents
   // Each ProfileEntry object splits the "stack" of names (e.g. "al/ilqr/cost" => ["al", "ilqr", "cost"])
@@ -52,30 +57,26 @@ void Timer::PrintSummary(std::map<std::string, std::chrono::microseconds>* const
   // This builds out a call "tree" with the root being a temporary entry that will 
   // calculate the total time recorded by the "base" level functions (e.g. "al").
   int max_width = 0;
-  for (; times_iter != times.end(); ++times_iter) {
-    // Create a new entry from the data in the Timer
-    entries.emplace_back(std::make_shared<ProfileEntry>(times_iter->first, times_iter->second));
+  for (const auto& name_entry : sorted_entries) {
+    entries.emplace_back(name_entry.second);
     EntryPtr entry = entries.back();
 
     // Get how "deep" the profile stack is.
     // e.g. level of "al/ilqr/cost" is 3.
     size_t curlevel = entry->NumLevels(); 
 
-    // Add another level if needed
-    // The "parents" vector contains the current parent for each level
-    // parents[0] is equal to the base level, so it's length is equal to the
-    // maximum "curlevel" seen so far +1.
-    if (curlevel >= parents.size()) {
-      parents.resize(curlevel + 1);  // the +1 accounts for the 0-level.
+    // Assign the parent to be the innermost enclosing function that has been logged
+    entry->parent = entries.front();
+    std::vector<std::string> parent_name = entry->name;
+    for (size_t level = curlevel - 1; level > 0; --level) {
+      parent_name.pop_back();
+      auto search_parent = sorted_entries.find(parent_name);
+      if (search_parent != sorted_entries.end()) {
+        entry->parent = search_parent->second;
+        break;
+      }
     }
 
-    // Always set the current entry as the parent for it's level
-    parents[curlevel] = entry;
-
-    // Assign the parent to be the last entry in the previous level
-    // This is ensured by the fact that the entries are sorted alphabetically
-    entry->parent = parents[curlevel - 1];
-
     // Add up all the base level entries to get the total time
     if (curlevel == 1) {
       entries.front()->time += entry->time;
-- 
2.43.0


From acafc46ae8d809be13580397d94cb30fdc38275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:19 +0000
Subject: [PATCH 17/42] fix: running out of memory or disk space terminated the
 process when profiling

---
 altro/common/timer.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/altro/common/timer.cpp b/altro/common/timer.cpp
index 7c30f88..69c5ca9 100644
--- a/altro/common/timer.cpp
+++ b/altro/common/timer.cpp
@@ -9,7 +9,11 @@ namespace altro {
 
 Timer::~Timer() { 
   if (!printed_summary_ && active_) {
-    PrintSummary(); 
+    try {
+      PrintSummary(); 
+    } catch (...) {
+      // Failing to print the summary must not terminate the process
+    }
   }
   // Close the file if the Timer has ownship
   CloseFile();
@@ -107,11 +111,12 @@ void Timer::PrintSummary(std::map<std::string, std::chrono::microseconds>* const
 
 Stopwatch Timer::Start(const std::string& name) {
   if (IsActive()) {
-    stack_.emplace_back(name);
-    std::string fullname = stack_.front();
-    for (size_t i = 1; i < stack_.size(); ++i) {
-      fullname += "/" + stack_[i];
+    std::string fullname;
+    for (const std::string& scope : stack_) {
+      fullname += scope + "/";
     }
+    fullname += name;
+    stack_.emplace_back(name);
     return Stopwatch(std::move(fullname), shared_from_this());
   }
   return Stopwatch();
@@ -142,7 +147,11 @@ Stopwatch::~Stopwatch() {
     auto duration = std::chrono::steady_clock::now() - start_;
     microseconds us = std::chrono::duration_cast<microseconds>(duration);
     parent_->stack_.pop_back();  // pop the name off the top of the stack (FILO stack)
-    parent_->times_[name_] += us;
+    try {
+      parent_->times_[name_] += us;
+    } catch (...) {
+      // Out of memory: the time can't be recorded, but the process must not terminate
+    }
   }
 }
 
-- 
2.43.0


From 92b8d1944a6ec81b528fc284d5f03bf8492f9dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:19 +0000
Subject: [PATCH 18/42] fix: SolverStats accessed empty vectors after running
 out of memory

---
 altro/common/solver_stats.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/altro/common/solver_stats.cpp b/altro/common/solver_stats.cpp
index 32c32a6..90c422c 100644
--- a/altro/common/solver_stats.cpp
+++ b/altro/common/solver_stats.cpp
@@ -52,18 +52,18 @@ void SolverStats::Reset() {
 }
 
 void SolverStats::NewIteration() {
-  len_++;
   for (auto& kv : floats_) {
     std::vector<double>& data = this->*kv.second;
-    data.resize(len_);
+    data.resize(len_ + 1);
 
     // Copy data from previous iteration
-    if (len_ > 1) {
+    if (len_ > 0) {
       data.back() = data.rbegin()[1];
     } else {
       data.back() = 0.0;
     }
   }
+  len_++;  // only once all the vectors have the new length
 }
 
 std::string SolverStats::ProfileOutputFile() {
-- 
2.43.0


From 0b7ca2e0589a34a8155982d1aeca3d4046d34c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:19 +0000
Subject: [PATCH 19/42] fix: SetTaskAssignment checked the old assignment and
 was ignored by launched threads

---
 altro/ilqr/ilqr.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index da1ae16..e9b70e0 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -260,12 +260,12 @@ class iLQR {
    * interval [`inds[i]`, `inds[i+1]`).
    */
   void SetTaskAssignment(std::vector<int> inds) {
-    ALTRO_ASSERT(work_inds_.back() == NumSegments() + 1,
+    ALTRO_ASSERT(inds.size() >= 2, "Work inds must have at least 2 elements.");
+    ALTRO_ASSERT(inds.back() == NumSegments() + 1,
                  "Work inds should include the terminal index.");
-    ALTRO_ASSERT(work_inds_[0] == 0, "Work inds should start with a 0.");
-    ALTRO_ASSERT(work_inds_.size() >= 2, "Work inds must have at least 2 elements.");
+    ALTRO_ASSERT(inds[0] == 0, "Work inds should start with a 0.");
     bool is_sorted = true;
-    for (int i = 1; i < inds.size(); ++i) {
+    for (size_t i = 1; i < inds.size(); ++i) {
       if (inds[i] <= inds[i - 1]) {
         is_sorted = false;
       }
@@ -273,6 +273,7 @@ class iLQR {
     ALTRO_ASSERT(is_sorted, "Work inds must be a set of strictly increasing integers.");
     work_inds_ = std::move(inds);
     custom_work_assignment_ = true;
+    tasks_outdated_ = true;
   }
 
   /***************************** Algorithm **************************************/
@@ -729,7 +730,7 @@ class iLQR {
       return;
     }
     bool num_threads_changed = nthreads != NumThreads();
-    if (N_ > 0 && (num_threads_changed || ShouldRedoTaskAssignment())) {
+    if (N_ > 0 && (num_threads_changed || tasks_outdated_ || ShouldRedoTaskAssignment())) {
       if (pool_.IsRunning()) {
         pool_.StopThreads();
       }
@@ -744,6 +745,7 @@ class iLQR {
         auto expansion_block = [this, start, stop]() { UpdateExpansionsBlock(start, stop); };
         tasks_.emplace_back(std::move(expansion_block));
       }
+      tasks_outdated_ = false;
 
       // Start the pool
       if (nthreads > 1) {
@@ -820,6 +822,7 @@ class iLQR {
 
   bool is_initial_state_set = false;
   bool custom_work_assignment_ = false;  // Has user assigned a custom task assignment
+  bool tasks_outdated_ = false;          // Has the assignment changed since creating the tasks
 
   std::function<double()> max_violation_callback_ = []() { return 0.0; };
   std::vector<std::function<void()>> tasks_;
-- 
2.43.0


From 6e4da61c1d080555c16fc0f23efd04c54f5dc7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:19 +0000
Subject: [PATCH 20/42] fix: default task assignments failed for some numbers
 of tasks and knot points

---
 altro/ilqr/ilqr.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index e9b70e0..1ddbdc2 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -757,14 +757,18 @@ class iLQR {
   void DefaultTaskAssignment() {
     int nthreads = GetOptions().NumThreads();
     int ntasks = nthreads * GetOptions().tasks_per_thread;
-    double step = NumSegments() / static_cast<double>(ntasks);
-    work_inds_.clear();
-    for (double val = 0.0; val <= NumSegments(); val += step) {
-      work_inds_.emplace_back(static_cast<int>(round(val)));
+    ALTRO_ASSERT(ntasks > 0, "Must have at least one task.");
+    std::vector<int> work_inds;
+    for (int i = 0; i <= ntasks; ++i) {
+      // Calculated from the index since accumulating the step also accumulates round-off errors
+      double val = static_cast<double>(i) * NumSegments() / ntasks;
+      work_inds.emplace_back(static_cast<int>(round(val)));
     }
-    ALTRO_ASSERT(work_inds_.back() == NumSegments(),
+    ALTRO_ASSERT(work_inds.back() == NumSegments(),
                  "Work inds should include the terminal index.");
-    work_inds_.back() += 1;  // Increment the last index to include the terminal index.
+    work_inds.back() += 1;  // Increment the last index to include the terminal index.
+    work_inds_ = std::move(work_inds);
+    tasks_outdated_ = true;
   }
 
   /**
-- 
2.43.0


From 0e7e3cf70d30e7516a7e58a76a83939411208af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:19 +0000
Subject: [PATCH 21/42] fix: solving failed if the number of hardware threads
 is unknown

---
 altro/common/solver_options.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/altro/common/solver_options.hpp b/altro/common/solver_options.hpp
index 3bab0f5..f46e84d 100644
--- a/altro/common/solver_options.hpp
+++ b/altro/common/solver_options.hpp
@@ -58,7 +58,8 @@ struct SolverOptions {
 
   int NumThreads() const {
     if (nthreads == kPickHardwareThreads) {
-      return std::thread::hardware_concurrency();
+      // The number of hardware threads is 0 if it can't be determined
+      return std::max(static_cast<int>(std::thread::hardware_concurrency()), 1);
     }
     return std::max(nthreads, 1);
   }
-- 
2.43.0


From 91383a61482d48291a4d8ab8fa9e7fc7d88616b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:19 +0000
Subject: [PATCH 22/42] fix: an augmented Lagrangian solve could report the
 previous solve's status

---
 altro/augmented_lagrangian/al_solver.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/altro/augmented_lagrangian/al_solver.hpp b/altro/augmented_lagrangian/al_solver.hpp
index 3a2c7a4..58e2d50 100644
--- a/altro/augmented_lagrangian/al_solver.hpp
+++ b/altro/augmented_lagrangian/al_solver.hpp
@@ -301,6 +301,7 @@ void AugmentedLagrangianiLQR<n, m>::SetPenaltyScaling(const double& phi) {
 template <int n, int m>
 void AugmentedLagrangianiLQR<n, m>::Init() {
   Stopwatch sw = CreateTimer("init");
+  status_ = SolverStatus::kUnsolved;
 
   SolverStats& stats = GetStats();
   if (GetOptions().reset_duals) {
-- 
2.43.0


From 0d1b9a219b8725ce591fed58ee286ba384b2e0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:19 +0000
Subject: [PATCH 23/42] fix: the expected cost decrease included abandoned
 backward passes

---
 altro/ilqr/ilqr.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 1ddbdc2..2f2dc22 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -426,6 +426,10 @@ class iLQR {
 
           IncreaseRegularization();
 
+          // Restart the expected cost decrease
+          deltaV_[0] = 0.0;
+          deltaV_[1] = 0.0;
+
           // Reset the cost-to-go pointers to the terminal expansion
           Sxx_prev = &(knotpoints_[N_]->GetCostToGoHessian());
           Sx_prev = &(knotpoints_[N_]->GetCostToGoGradient());
-- 
2.43.0


From 12673f7a02c46309935a319b3fe82156a2369224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:19 +0000
Subject: [PATCH 24/42] fix: failed backward passes were ignored

---
 altro/ilqr/ilqr.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 2f2dc22..10b5152 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -542,7 +542,10 @@ class iLQR {
 
     double J = J0;
 
-    for (; iter_fp < opts.line_search_max_iterations; ++iter_fp) {
+    // There is no policy to follow if the backward pass failed
+    bool has_policy = status_ != SolverStatus::kBackwardPassRegularizationFailed;
+
+    for (; has_policy && iter_fp < opts.line_search_max_iterations; ++iter_fp) {
       if (RolloutClosedLoop(alpha)) {
         J = Cost(*Zbar_);
         double expected = -alpha * (deltaV_[0] + alpha * deltaV_[1]);
@@ -622,7 +625,9 @@ class iLQR {
     bool gradient = stats_.gradient.back() < opts.gradient_tolerance;
     bool is_done = false;
 
-    if (cost_decrease && gradient) {
+    if (status_ == SolverStatus::kBackwardPassRegularizationFailed) {
+      is_done = true;
+    } else if (cost_decrease && gradient) {
       status_ = SolverStatus::kSolved;
       is_done = true;
     } else if (stats_.iterations_inner >= opts.max_iterations_inner) {
-- 
2.43.0


From ae081828f028c8989a0bd6182647edff21a73ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:19 +0000
Subject: [PATCH 25/42] fix: costs, violations and multipliers used a rejected
 trajectory after a failed line search

---
 altro/ilqr/ilqr.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 10b5152..dbb401a 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -571,7 +571,13 @@ class iLQR {
       (*Z_) = (*Zbar_);
     } else {
       IncreaseRegularization();
+      if (iter_fp > 0) {
+        Cost();  // the costs and constraint values are those of the last rejected candidate
+      }
       J = J0;
+      stats_.Log("cost", J0);
+      stats_.Log("alpha", 0.0);
+      stats_.Log("z", z);
     }
 
     if (J > J0) {
-- 
2.43.0


From 321f95e1ba4078566ba53fcf6fb1311db0e0f78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:19 +0000
Subject: [PATCH 26/42] fix: solving with a trajectory created by
 MakeTrajectory crashed

---
 altro/ilqr/ilqr.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index dbb401a..2aef3d8 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -220,6 +220,7 @@ class iLQR {
   std::shared_ptr<Trajectory<n, m>> MakeTrajectory(float dt) {
     Z_ = std::make_shared<Trajectory<n, m>>(NumSegments());
     Z_->SetUniformStep(dt);
+    Zbar_ = std::make_unique<Trajectory<n, m>>(*Z_);
     return Z_;
   }
 
-- 
2.43.0


From ac8e3a2a2c90b5565a9889b9821e57929f31b573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:19 +0000
Subject: [PATCH 27/42] fix: division by zero for a header frequency of 0

---
 altro/common/solver_logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/altro/common/solver_logger.cpp b/altro/common/solver_logger.cpp
index 0113ac6..96b5bd2 100644
--- a/altro/common/solver_logger.cpp
+++ b/altro/common/solver_logger.cpp
@@ -45,7 +45,7 @@ void SolverLogger::PrintData() {
 }
 
 void SolverLogger::Print() {
-  if ((count_ % frequency_) == 0) {
+  if (frequency_ > 0 && (count_ % frequency_) == 0) {
     count_ = 0;
     PrintHeader();
   }
-- 
2.43.0


From af4f71390af06273e48789af3110f962546c8583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:40 +0000
Subject: [PATCH 28/42] fix: a solve failed if the standard output could not be
 written

---
 altro/common/solver_logger.cpp | 18 ++++++++++++++++++
 altro/common/solver_logger.hpp |  3 +++
 altro/common/threadpool.cpp    |  7 ++++++-
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/altro/common/solver_logger.cpp b/altro/common/solver_logger.cpp
index 96b5bd2..51f1db4 100644
--- a/altro/common/solver_logger.cpp
+++ b/altro/common/solver_logger.cpp
@@ -2,6 +2,8 @@
 
 #include "altro/common/solver_logger.hpp"
 
+#include <system_error>
+
 namespace altro {
 
 
@@ -9,6 +11,14 @@ void SolverLogger::PrintHeader() {
   if (cur_level_ == LogLevel::kSilent) {
     return;
   }
+  try {
+    WriteHeader();
+  } catch (const std::system_error&) {
+    // Not being able to write to the console must not abort a solve
+  }
+}
+
+void SolverLogger::WriteHeader() {
   int total_width = 0;
   bool any_active = false;
   for (const std::string* title : order_) {
@@ -30,6 +40,14 @@ void SolverLogger::PrintData() {
   if (cur_level_ == LogLevel::kSilent) {
     return;
   }
+  try {
+    WriteData();
+  } catch (const std::system_error&) {
+    // Not being able to write to the console must not abort a solve
+  }
+}
+
+void SolverLogger::WriteData() {
   bool any_active = false;
   for (const std::string* title : order_) {
     LogEntry& entry = entries_[*title];
diff --git a/altro/common/solver_logger.hpp b/altro/common/solver_logger.hpp
index cac8e1c..d859431 100644
--- a/altro/common/solver_logger.hpp
+++ b/altro/common/solver_logger.hpp
@@ -164,6 +164,9 @@ class SolverLogger {
  private:
   static constexpr int kDefaultFrequency = 10;
 
+  void WriteHeader();
+  void WriteData();
+
   LogLevel cur_level_ = LogLevel::kSilent;   // Current verbosity level
   int frequency_ = kDefaultFrequency;        // frequency of the header print
   int count_ = 0;                            // number of prints since header
diff --git a/altro/common/threadpool.cpp b/altro/common/threadpool.cpp
index 1a914de..eea9521 100644
--- a/altro/common/threadpool.cpp
+++ b/altro/common/threadpool.cpp
@@ -1,6 +1,7 @@
 // Copyright [2021] Optimus Ride Inc.
 
 #include <exception>
+#include <system_error>
 
 #include <fmt/format.h>
 #include <fmt/chrono.h>
@@ -36,7 +37,11 @@ bool ThreadPool::Wait() {
   for (const std::future<void>& future : futures_) {
     std::future_status status = future.wait_for(timeout_);
     if (status == std::future_status::timeout) {
-      fmt::print("Task timed out after {}\n", timeout_);
+      try {
+        fmt::print("Task timed out after {}\n", timeout_);
+      } catch (const std::system_error&) {
+        // Not being able to write to the console must not change the result
+      }
       is_finished = false;
     }
   }
-- 
2.43.0


From 0a9573c5f8568197c4f58d96d5044c48498fb2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:41 +0000
Subject: [PATCH 29/42] fix: NaN values of constraints were reported as
 satisfied

---
 altro/augmented_lagrangian/al_cost.hpp   |  4 ++++
 altro/augmented_lagrangian/al_solver.hpp |  4 +++-
 altro/constraints/constraint.hpp         |  2 +-
 altro/constraints/constraint_values.hpp  | 10 +++++++---
 4 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/altro/augmented_lagrangian/al_cost.hpp b/altro/augmented_lagrangian/al_cost.hpp
index d702796..509c3a2 100644
--- a/altro/augmented_lagrangian/al_cost.hpp
+++ b/altro/augmented_lagrangian/al_cost.hpp
@@ -2,6 +2,7 @@
 
 #pragma once
 
+#include <limits>
 #include <memory>
 
 #include "altro/common/state_control_sized.hpp"
@@ -348,6 +349,9 @@ class ALCost : public problem::CostFunction {
     for (size_t i = 0; i < ineq_.size(); ++i) {
       ineq_tmp_(i) = ineq_[i]->template MaxViolation<p>();
     }
+    if (eq_tmp_.hasNaN() || ineq_tmp_.hasNaN()) {
+      return std::numeric_limits<double>::quiet_NaN();
+    }
     Eigen::Vector2d tmp(eq_tmp_.template lpNorm<p>(), ineq_tmp_.template lpNorm<p>());
     return tmp.template lpNorm<p>();
   }
diff --git a/altro/augmented_lagrangian/al_solver.hpp b/altro/augmented_lagrangian/al_solver.hpp
index 58e2d50..d410c11 100644
--- a/altro/augmented_lagrangian/al_solver.hpp
+++ b/altro/augmented_lagrangian/al_solver.hpp
@@ -435,7 +435,9 @@ double AugmentedLagrangianiLQR<n, m>::GetMaxViolation() {
   for (int k = 0; k <= NumSegments(); ++k) {
     max_violation_(k) = costs_[k]->template MaxViolation<p>();
   }
-  return max_violation_.template lpNorm<p>();
+  // The result of lpNorm is undefined if there are any NaNs
+  return max_violation_.hasNaN() ? std::numeric_limits<double>::quiet_NaN()
+                                 : max_violation_.template lpNorm<p>();
 }
 
 template <int n, int m>
diff --git a/altro/constraints/constraint.hpp b/altro/constraints/constraint.hpp
index 5eeabf1..01590bb 100644
--- a/altro/constraints/constraint.hpp
+++ b/altro/constraints/constraint.hpp
@@ -103,7 +103,7 @@ class NegativeOrthant {
   static void Projection(const VectorXdRef& x, Eigen::Ref<VectorXd> x_proj) {
     ALTRO_ASSERT(x.size() == x_proj.size(), "x and x_proj must be the same size");
     for (int i = 0; i < x.size(); ++i) {
-      x_proj(i) = std::min(0.0, x(i));
+      x_proj(i) = std::min(x(i), 0.0);  // order matters: the projection of NaN must be NaN
     }
   }
   static void Jacobian(const VectorXdRef& x, Eigen::Ref<MatrixXd> jac) {
diff --git a/altro/constraints/constraint_values.hpp b/altro/constraints/constraint_values.hpp
index bc37072..bc4b239 100644
--- a/altro/constraints/constraint_values.hpp
+++ b/altro/constraints/constraint_values.hpp
@@ -3,6 +3,7 @@
 #pragma once
 #include <fmt/format.h>
 #include <fmt/ostream.h>
+#include <limits>
 
 #include "altro/common/state_control_sized.hpp"
 #include "altro/constraints/constraint.hpp"
@@ -210,13 +211,16 @@ class ConstraintValues : public Constraint<ConType> {
    * @brief Calculate the maximum constraint violation
    * 
    * @tparam p The norm to use when calculating the violation (default = Infinity)
-   * @return Maximum constraint violation 
+   * @return Maximum constraint violation, or NaN if any of the constraint values is NaN
    */
   template <int p = Eigen::Infinity>
   double MaxViolation() {
     ConType::Projection(c_, c_proj_);
-    c_proj_ = c_ - c_proj_;
-    return c_proj_.template lpNorm<p>();
+    // Points in the cone have zero violation, even if they're infinite
+    c_proj_ = (c_.array() == c_proj_.array()).select(0.0, c_ - c_proj_);
+    // The result of lpNorm is undefined if there are any NaNs
+    return c_proj_.hasNaN() ? std::numeric_limits<double>::quiet_NaN()
+                            : c_proj_.template lpNorm<p>();
   }
 
   /**
-- 
2.43.0


From 77e99e048ac210f596729c5190abdf7e3a86ccb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:30 +0000
Subject: [PATCH 30/42] fix: a failed backward pass reported the gradient of
 the previous solve

---
 altro/ilqr/ilqr.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 2aef3d8..ed1bc54 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -663,6 +663,12 @@ class iLQR {
     stats_.iterations_inner = 0;
     stats_.SetVerbosity(GetOptions().verbose);
 
+    // Don't use the gains of the previous solve if the first backward pass fails
+    for (int k = 0; k < N_; ++k) {
+      GetKnotPointFunction(k).GetFeedforwardGain().setZero();
+      GetKnotPointFunction(k).GetFeedbackGain().setZero();
+    }
+
     // Make sure Zbar has the same times as the initial trajectory
     if (Z_ != nullptr) {
       int k;
-- 
2.43.0


From 6af61af1de3ec9457c00df090f7b65da124e5bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 31/42] fix: the violation of infinite but satisfied constraint
 values was NaN

---
 altro/constraints/constraint_values.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/altro/constraints/constraint_values.hpp b/altro/constraints/constraint_values.hpp
index bc4b239..2e17397 100644
--- a/altro/constraints/constraint_values.hpp
+++ b/altro/constraints/constraint_values.hpp
@@ -63,7 +63,8 @@ class ConstraintValues : public Constraint<ConType> {
 
   VectorNd<p>& GetViolation() {
     ConType::Projection(c_, c_proj_);
-    c_proj_ = c_ - c_proj_;
+    // Points in the cone have zero violation, even if they're infinite
+    c_proj_ = (c_.array() == c_proj_.array()).select(0.0, c_ - c_proj_);
     return c_proj_;
   }
 
-- 
2.43.0


From 550050dedc2c2450b1ad8277fb83305a045326c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 32/42] fix: IsFullyDefined crashed if only the first dynamics
 were missing

---
 altro/problem/problem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/altro/problem/problem.cpp b/altro/problem/problem.cpp
index 7b32f0d..76a72ac 100644
--- a/altro/problem/problem.cpp
+++ b/altro/problem/problem.cpp
@@ -20,7 +20,8 @@ bool Problem::IsFullyDefined(const bool verbose) const {
     bool good_state_dim = true;
     if (k == 0) {
       has_initial_state = initial_state_->size() > 0;
-      good_state_dim = has_initial_state && (models_[k]->StateDimension() == initial_state_->size());
+      good_state_dim = has_initial_state && models_[k] != nullptr &&
+                       (models_[k]->StateDimension() == initial_state_->size());
       valid_k = valid_k && has_initial_state && good_state_dim;
     }
     valid = valid && valid_k;
-- 
2.43.0


From 811583f25a0e89502cd9047e05998cf7c6b989dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 33/42] fix: constraints could be set at knot points that do
 not exist

---
 altro/problem/problem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/altro/problem/problem.cpp b/altro/problem/problem.cpp
index 76a72ac..3fbcd6a 100644
--- a/altro/problem/problem.cpp
+++ b/altro/problem/problem.cpp
@@ -44,6 +44,7 @@ bool Problem::IsFullyDefined(const bool verbose) const {
 template <>
 void Problem::SetConstraint<constraints::Equality>(
     std::shared_ptr<constraints::Constraint<constraints::Equality>> con, int k) {
+  ALTRO_ASSERT((k >= 0) && (k <= N_), "Invalid knot point index.");
   ALTRO_ASSERT(con != nullptr, "Must provide a valid constraint pointer.");
   ALTRO_ASSERT(con->OutputDimension() > 0, "Constraint must have a length greater than zero.");
   eq_[k].emplace_back(std::move(con));
@@ -52,6 +53,7 @@ void Problem::SetConstraint<constraints::Equality>(
 template <>
 void Problem::SetConstraint<constraints::Inequality>(
     std::shared_ptr<constraints::Constraint<constraints::Inequality>> con, int k) {
+  ALTRO_ASSERT((k >= 0) && (k <= N_), "Invalid knot point index.");
   ALTRO_ASSERT(con != nullptr, "Must provide a valid constraint pointer.");
   ALTRO_ASSERT(con->OutputDimension() > 0, "Constraint must have a length greater than zero.");
   ineq_[k].emplace_back(std::move(con));
-- 
2.43.0


From 282ec3a8abfc4989b0e6ed93a76d2e69c37338c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 34/42] fix: setting an initial state of another size corrupted
 memory if it ran out

---
 altro/problem/problem.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/altro/problem/problem.hpp b/altro/problem/problem.hpp
index 3b5c0cb..7ccc70f 100644
--- a/altro/problem/problem.hpp
+++ b/altro/problem/problem.hpp
@@ -78,7 +78,7 @@ class Problem {
 
   Problem& operator=(const Problem& other) {
     N_ = other.N_;
-    *initial_state_ = *(other.initial_state_);
+    SetInitialState(*(other.initial_state_));
     costfuns_ = other.costfuns_;
     models_ = other.models_;
     eq_ = other.eq_;
@@ -93,7 +93,7 @@ class Problem {
 
   Problem& operator=(Problem&& other) {
     N_ = other.N_;
-    *initial_state_ = *(other.initial_state_);
+    SetInitialState(*(other.initial_state_));
     costfuns_ = std::move(other.costfuns_);
     models_ = std::move(other.models_);
     eq_ = std::move(other.eq_);
@@ -113,7 +113,10 @@ class Problem {
    *
    * @param x0 the initial state
    */
-  void SetInitialState(const VectorXdRef& x0) { *initial_state_ = x0; }
+  void SetInitialState(const VectorXdRef& x0) {
+    VectorXd state = x0;  // resizing the current state isn't safe if it runs out of memory
+    initial_state_->swap(state);
+  }
 
   /**
    * @brief Set the cost function at knot point k
-- 
2.43.0


From 6ff88388d34de46bb741243b3e76c9fcc18e9187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 35/42] fix: copied loggers and statistics used the titles of
 the original

---
 altro/common/solver_logger.cpp | 8 ++++----
 altro/common/solver_logger.hpp | 8 ++------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/altro/common/solver_logger.cpp b/altro/common/solver_logger.cpp
index 51f1db4..bc43a13 100644
--- a/altro/common/solver_logger.cpp
+++ b/altro/common/solver_logger.cpp
@@ -21,8 +21,8 @@ void SolverLogger::PrintHeader() {
 void SolverLogger::WriteHeader() {
   int total_width = 0;
   bool any_active = false;
-  for (const std::string* title : order_) {
-    LogEntry& entry = entries_[*title];
+  for (const std::string& title : order_) {
+    LogEntry& entry = entries_[title];
     entry.PrintHeader(cur_level_, header_color_);
     if (entry.IsActive(cur_level_)) {
       any_active = true;
@@ -49,8 +49,8 @@ void SolverLogger::PrintData() {
 
 void SolverLogger::WriteData() {
   bool any_active = false;
-  for (const std::string* title : order_) {
-    LogEntry& entry = entries_[*title];
+  for (const std::string& title : order_) {
+    LogEntry& entry = entries_[title];
     entry.Print(cur_level_);
     if (entry.IsActive(cur_level_)) {
       any_active = true;
diff --git a/altro/common/solver_logger.hpp b/altro/common/solver_logger.hpp
index d859431..c0fc58f 100644
--- a/altro/common/solver_logger.hpp
+++ b/altro/common/solver_logger.hpp
@@ -171,7 +171,7 @@ class SolverLogger {
   int frequency_ = kDefaultFrequency;        // frequency of the header print
   int count_ = 0;                            // number of prints since header
   std::unordered_map<std::string, LogEntry> entries_;
-  std::vector<const std::string*> order_;
+  std::vector<std::string> order_;           // titles, in the order of the columns
   fmt::color header_color_ = fmt::color::white;
 };
 
@@ -192,10 +192,6 @@ LogEntry& SolverLogger::AddEntry(const int& col, Args... args) {
   const std::string title = entry.GetTitle();
   auto insert = entries_.emplace(std::make_pair(title, std::move(entry)));
 
-  // Get a pointer to the title string used in the map
-  // insert.first is an iterator over key-value pairs for the map entries_
-  const std::string* title_ptr = &(insert.first->first);
-
   // Specify the output order
   auto it = order_.begin();
   if (col < 0) {
@@ -204,7 +200,7 @@ LogEntry& SolverLogger::AddEntry(const int& col, Args... args) {
   } else {
     it += col;
   }
-  order_.insert(it, title_ptr);
+  order_.insert(it, title);
 
   return insert.first->second;
 }
-- 
2.43.0


From c26ca418fda80c32cfee62ba168ea560925ac5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 36/42] fix: the backward pass ends when the regularisation
 cannot grow

With bp_reg_increase_factor = 1 the regularisation never reaches bp_reg_max, so a solve with an
indefinite expansion never returned. With bp_reg_min = 0 and bp_reg_initial = 0 it stayed at zero
until its growth overflowed, and the gains were then calculated with a regularisation of NaN.
---
 altro/ilqr/ilqr.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index ed1bc54..cb099c9 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -424,7 +424,7 @@ class iLQR {
 
         // Handle solve failure
         if (info != Eigen::Success) {
-
+          const double rho_prev = rho_;
           IncreaseRegularization();
 
           // Restart the expected cost decrease
@@ -435,8 +435,8 @@ class iLQR {
           Sxx_prev = &(knotpoints_[N_]->GetCostToGoHessian());
           Sx_prev = &(knotpoints_[N_]->GetCostToGoGradient());
 
-          // Check if we're at max regularization
-          if (rho_ >= GetOptions().bp_reg_max) {
+          // Check if we're at max regularization, or if it cannot grow any further
+          if (rho_ >= GetOptions().bp_reg_max || rho_ <= rho_prev) {
             max_reg_count++;
           }
 
-- 
2.43.0


From 970955bdbe6e0f9b3ebe5ca962616591bd9fb797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 37/42] fix: disabling the regularization has an effect

The option bp_reg_enable was ignored: the backward pass was regularized regardless.
---
 altro/ilqr/ilqr.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index cb099c9..3491c89 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -721,7 +721,7 @@ class iLQR {
     grad_ = VectorXd::Zero(N_);
     deltaV_[0] = 0.0;
     deltaV_[1] = 0.0;
-    rho_ = GetOptions().bp_reg_initial;
+    rho_ = GetOptions().bp_reg_enable ? GetOptions().bp_reg_initial : 0.0;
     drho_ = 0.0;
 
     LaunchThreads();
@@ -812,6 +812,9 @@ class iLQR {
    */
   void IncreaseRegularization() {
     const SolverOptions& opts = GetOptions();
+    if (!opts.bp_reg_enable) {
+      return;
+    }
     drho_ = std::max(drho_ * opts.bp_reg_increase_factor, opts.bp_reg_increase_factor);
     rho_ = std::max(rho_ * drho_, opts.bp_reg_min);
     rho_ = std::min(rho_, opts.bp_reg_max);
@@ -823,6 +826,9 @@ class iLQR {
    */
   void DecreaseRegularization() {
     const SolverOptions& opts = GetOptions();
+    if (!opts.bp_reg_enable) {
+      return;
+    }
     drho_ = std::min(drho_ / opts.bp_reg_increase_factor, 1 / opts.bp_reg_increase_factor);
     rho_ = std::max(rho_ * drho_, opts.bp_reg_min);
     rho_ = std::min(rho_, opts.bp_reg_max);
-- 
2.43.0


From 8f2ee52081ccc6ebe5618c7813e8ab9d5f5562a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:59 +0000
Subject: [PATCH 38/42] fix: a failed assignment left a corrupted problem

If memory ran out while a problem was assigned, it already had the number of segments of the other
problem but still its own vectors.
---
 altro/problem/problem.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/altro/problem/problem.hpp b/altro/problem/problem.hpp
index 7ccc70f..ed4adc3 100644
--- a/altro/problem/problem.hpp
+++ b/altro/problem/problem.hpp
@@ -77,13 +77,7 @@ class Problem {
       : N_(N), initial_state_(initial_state), costfuns_(N + 1, nullptr), models_(N + 1, nullptr), eq_(N + 1), ineq_(N + 1) {}
 
   Problem& operator=(const Problem& other) {
-    N_ = other.N_;
-    SetInitialState(*(other.initial_state_));
-    costfuns_ = other.costfuns_;
-    models_ = other.models_;
-    eq_ = other.eq_;
-    ineq_ = other.ineq_;
-    return *this;
+    return *this = Problem(other);  // don't change anything if copying fails
   }
 
   Problem(const Problem& other)
@@ -92,8 +86,8 @@ class Problem {
   }
 
   Problem& operator=(Problem&& other) {
+    SetInitialState(*(other.initial_state_));  // can fail
     N_ = other.N_;
-    SetInitialState(*(other.initial_state_));
     costfuns_ = std::move(other.costfuns_);
     models_ = std::move(other.models_);
     eq_ = std::move(other.eq_);
-- 
2.43.0


From 87f0b1487c4c18cdbeece8bd294813f10221de1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:46 +0000
Subject: [PATCH 39/42] fix: checking an assertion could run out of memory

The message of every assertion was created even if the assertion held, such
that a definition interrupted by a lack of memory was left half done.
---
 altro/utils/assert.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/altro/utils/assert.hpp b/altro/utils/assert.hpp
index f939e52..22aad92 100644
--- a/altro/utils/assert.hpp
+++ b/altro/utils/assert.hpp
@@ -4,7 +4,9 @@
 #include <string>
 
 #ifndef NDEBUG
-#define ALTRO_ASSERT(Expr, Msg) altro::utils::AssertMsg((Expr), Msg, #Expr, __LINE__, __FILE__)
+// The message is only created when the assertion fails, such that checking it doesn't allocate memory
+#define ALTRO_ASSERT(Expr, Msg) \
+  ((Expr) ? void() : altro::utils::AssertMsg(false, Msg, #Expr, __LINE__, __FILE__))
 #else
 #define ALTRO_ASSERT(Expr, Msg) ;
 #endif
-- 
2.43.0


From f03944474bdf9b2c17af50f2e53dd27f2afc658e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:46 +0000
Subject: [PATCH 40/42] fix: a vector of dynamics was partially set when memory
 ran out

Only the dynamics of the last segment need memory, so these are set first.
---
 altro/problem/problem.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/altro/problem/problem.hpp b/altro/problem/problem.hpp
index ed4adc3..8a05475 100644
--- a/altro/problem/problem.hpp
+++ b/altro/problem/problem.hpp
@@ -185,7 +185,8 @@ class Problem {
    */
   template <class Dynamics>
   void SetDynamics(const std::vector<std::shared_ptr<Dynamics>>& models, int k_start = 0) {
-    for (size_t i = 0; i < models.size(); ++i) {
+    // Starts with the last one since only the dynamics of the last segment can run out of memory
+    for (size_t i = models.size(); i-- > 0;) {
       int k = i + k_start;
       SetDynamics(models[i], k);
     }
-- 
2.43.0


From 5d6d3cac6536826ec75f2c2ad34fc1b2c001b9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:21 +0000
Subject: [PATCH 41/42] fix: benchmark times are measured with the monotonic
 clock

std::chrono::high_resolution_clock is the wall clock in libstdc++: a clock
adjustment during a benchmark gave negative or far too long samples.
---
 altro/utils/benchmarking.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/altro/utils/benchmarking.hpp b/altro/utils/benchmarking.hpp
index ddf8dca..bb99160 100644
--- a/altro/utils/benchmarking.hpp
+++ b/altro/utils/benchmarking.hpp
@@ -104,9 +104,9 @@ BenchmarkResults<Duration> Benchmark(Function f, int Nsamples = kDefaultSamples)
   std::vector<time_t> times;
   times.reserve(Nsamples);
   for (int i = 0; i < Nsamples; ++i) {
-    auto start = std::chrono::high_resolution_clock::now();
+    auto start = std::chrono::steady_clock::now();
     f();
-    auto stop = std::chrono::high_resolution_clock::now();
+    auto stop = std::chrono::steady_clock::now();
     times.emplace_back(std::chrono::duration_cast<time_t>(stop - start));
   }
   return BenchmarkResults<Duration>::Calculate(times);
-- 
2.43.0


From 9b88550526e46b975baebd8c039c21cec2e19366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:20 +0000
Subject: [PATCH 42/42] fix: benchmark results of no samples are rejected
 instead of read from outside the vector

---
 altro/utils/benchmarking.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/altro/utils/benchmarking.hpp b/altro/utils/benchmarking.hpp
index bb99160..956cce6 100644
--- a/altro/utils/benchmarking.hpp
+++ b/altro/utils/benchmarking.hpp
@@ -3,6 +3,7 @@
 #include <vector>
 #include <chrono>
 #include <algorithm>
+#include <stdexcept>
 #include <fmt/format.h>
 #include <fmt/chrono.h>
 
@@ -45,6 +46,9 @@ struct BenchmarkResults {
 
 template <class Duration>
 BenchmarkResults<Duration> BenchmarkResults<Duration>::Calculate(std::vector<time_t>& times) {
+  if (times.empty()) {
+    throw std::invalid_argument("Benchmark results need at least one sample.");
+  }
   // Sort for median
   std::sort(times.begin(), times.end());
   int samples = times.size();
-- 
2.43.0

