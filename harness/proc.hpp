#pragma once
#include "plan.hpp"
#include <functional>
struct ProcEnd { bool ok = false, killed = false; };
// Run body in a simulated process of its own (fresh scheduler, fresh memory, same disk).
// A crash or violation inside ends the whole run.
ProcEnd run_process(const Plan& p, int idx, const std::function<void()>& body);
constexpr size_t kBoard = 64u << 20;
extern char* g_board;
const char* scratch_dir();
