// Internals shared by the simulator's own files.
#pragma once
#include "simrt.hpp"
#include <atomic>
#include <pthread.h>

namespace sim {
constexpr int kMaxThr = 48;
enum { IDLE, RUNNABLE, BLOCKED, DONE };
struct VC {
    uint32_t c[kMaxThr] = {};
    void join(const VC& o) {
        for (int i = 0; i < kMaxThr; ++i) if (o.c[i] > c[i]) c[i] = o.c[i];
    }
};
struct Team;
struct Ws;
struct Thr {
    int id = 0;
    pthread_t h{};
    std::atomic<int> go{0};
    int st = IDLE;
    const void* wait = nullptr;
    uint64_t pts = 0, stop_at = 0, yields = 0;
    double prio = 0;
    int spins = 0, in_rt = 0;          // in_rt: inside the simulator itself
    VC vc, acq, rel;
    bool has_rel = false;
    // OpenMP
    Team* team = nullptr;
    int tnum = 0, nthreads = 1, nkids = 0;
    unsigned ws = 0;
    Ws* cur = nullptr;
    Thr* kids[16] = {};
    void (*fn)(void*) = nullptr;
    void* data = nullptr;
    // caller thread
    std::function<void()> user;
    void* (*start)(void*) = nullptr;
    void *start_arg = nullptr, *retval = nullptr;
    bool done = false, joined = false;
};
extern thread_local Thr* me __attribute__((tls_model("initial-exec")));
extern int nlive, g_unjoined;
inline bool tracking() { return nlive + g_unjoined >= 2; }
struct RtGuard {
    Thr* t;
    RtGuard() : t(me) { if (t) ++t->in_rt; }
    ~RtGuard() { if (t) --t->in_rt; }
};
void slow_point(Thr* t);
void sync_point();
void forced_yield();
// race detector
void race_init();
void race_reset();
void race_forget(const void* p, size_t n);      // memory was (re)allocated or freed
void hb_acquire(const void* obj);
void hb_release(const void* obj);
} // namespace sim
