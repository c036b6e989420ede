#pragma once
#include <fcntl.h>
#include "plan.h"
namespace ss {
inline int count_fds() { int n = 0; for (int i = 0; i < 256; ++i) if (fcntl(i, F_GETFD) != -1) ++n; return n; }
void timer_gen(Rng& r, Plan& p);
void timer_run(const Plan& p);
void log_gen(Rng& r, Plan& p);        // the console logger on its own
void log_run(const Plan& p);
void problem_gen(Rng& r, Plan& p);    // histories of problem definitions
void bench_gen(Rng& r, Plan& p);      // the benchmark utility
void problem_run(const Plan& p);
void bench_run(const Plan& p);
}  // namespace ss
