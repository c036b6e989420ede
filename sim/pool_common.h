#pragma once
#include "plan.h"
#include "rec.h"
void pool_gen(Rng& r, Plan& p, int flavour);   // flavour = property number: 2 3 4 5 16 19
void pool_run(const Plan& p, int flavour);
void queue_gen(Rng& r, Plan& p);
void queue_run(const Plan& p);
