#include "sim_solver.h"
namespace ss { void run_static(const Plan& p, int fl) { run_scenario<NX, NU>(p, fl); } }
