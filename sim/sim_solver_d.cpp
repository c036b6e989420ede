#include "sim_solver.h"
namespace ss { void run_dynamic(const Plan& p, int fl) { run_scenario<Eigen::Dynamic, Eigen::Dynamic>(p, fl); } }
