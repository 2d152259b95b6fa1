// C23 on the programs of samples/ themselves.
#pragma once
#include "plan.hpp"
void gen_main(Plan& p, sim::Rng& r);      // adds cfg "program" and the operations; nothing without samples
void exec_main(const Plan& p);
