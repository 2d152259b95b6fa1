// Scheduler, OpenMP runtime, pthread layer, happens-before race detector (flavour T).
// Exactly one simulated thread holds the baton at any time, so none of this needs locks.
#include "simrt.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <future>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include "simrt_int.hpp"

namespace sim {

Shared* S = nullptr;

// ---------------------------------------------------------------- result area
void count(const char* name, uint64_t n) {
    if (!S) return;
    for (uint32_t i = 0; i < S->nctr; ++i)
        if (!strncmp(S->ctr[i].name, name, 47)) { S->ctr[i].n += n; return; }
    if (S->nctr < (uint32_t)kMaxCounters) {
        strncpy(S->ctr[S->nctr].name, name, 47);
        S->ctr[S->nctr++].n = n;
    }
}
void logf(const char* fmt, ...) {
    if (!S || S->loglen > (uint32_t)kLogCap - 512) return;
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(S->log + S->loglen, 500, fmt, ap);
    va_end(ap);
    if (n > 499) n = 499;
    if (n > 0) { S->loglen += n; S->log[S->loglen++] = '\n'; }
}
void phase(const char* fmt, ...) {
    if (!S) return;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(S->phase, sizeof S->phase, fmt, ap);
    va_end(ap);
    logf("phase %s", S->phase);
}
void hash_u64(uint64_t v) { if (S) S->hash = mix64(S->hash ^ v) + 0x1234567; }
void hash_bytes(const void* p, size_t n) {
    const unsigned char* c = (const unsigned char*)p;
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
    hash_u64(h ^ n);
}
static void finish_counters();
void end_run(int code) {
    finish_counters();
    syscall(SYS_exit_group, code);
    __builtin_unreachable();
}
void violation(const char* cls, const char* fmt, ...) {
    if (S && !S->violated) {
        strncpy(S->cls, cls, sizeof S->cls - 1);
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(S->detail, sizeof S->detail, fmt, ap);
        va_end(ap);
        S->violated = 1;
    }
    end_run(3);
}

// ---------------------------------------------------------------- threads
static Thr g_thr[kMaxThr];
static int g_nthr = 0;
int nlive = 0;                // simulated threads that are running, ready or blocked
int g_unjoined = 0;           // finished threads nobody has joined yet: their accesses still count
thread_local Thr* me = nullptr;
static SchedCfg g_cfg;
static Rng g_rng(1), g_team_rng(1);
static std::map<std::pair<uint32_t, uint64_t>, uint32_t> g_replay;
static bool g_on = false;
static const uint64_t kPointCap = 60000000;

template <typename F> static F real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }

static void futex_wait(std::atomic<int>* a) {
    while (a->load(std::memory_order_acquire) == 0)
        syscall(SYS_futex, (int*)a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    a->store(0, std::memory_order_relaxed);
}
static void futex_post(std::atomic<int>* a) {
    a->store(1, std::memory_order_release);
    syscall(SYS_futex, (int*)a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static void finish_counters() {
    static bool done = false;
    if (!S || done) return;
    done = true;
    uint64_t p = 0;
    for (int i = 0; i < g_nthr; ++i) p += g_thr[i].pts;
    S->points += p;
    if (random_device_draws()) count("env: words drawn from the random device", random_device_draws());
    if (order_choices()) count("env: choices of execution order", order_choices());
}

static void plan_next_stop(Thr* t) {
    uint64_t gap = 1000000;
    if (g_cfg.mode == SchedCfg::RANDOM || g_cfg.mode == SchedCfg::PCT) {
        if (g_cfg.p_mem > 0) {
            double g = std::log(1.0 - g_rng.unit()) / std::log(1.0 - g_cfg.p_mem);
            if (g < gap) gap = (uint64_t)g + 1;
        }
    } else if (g_cfg.mode == SchedCfg::REPLAY) {
        auto it = g_replay.lower_bound({(uint32_t)t->id, t->pts + 1});
        if (it != g_replay.end() && it->first.first == (uint32_t)t->id && it->first.second - t->pts < gap)
            gap = it->first.second - t->pts;
    }
    t->stop_at = t->pts + gap;
}

static void run(Thr* to) {            // hand the baton over and wait until it comes back
    Thr* t = me;
    if (to == t) return;
    S->switches++;
    t->spins = 0;
    futex_post(&to->go);
    futex_wait(&t->go);
}

static Thr* default_next(Thr* t) {    // round robin
    for (int k = 1; k <= g_nthr; ++k) {
        Thr* c = &g_thr[(t->id + k) % g_nthr];
        if (c->st == RUNNABLE && c != t) return c;
    }
    return t->st == RUNNABLE ? t : nullptr;
}
static void record(Thr* t, Thr* to) {
    S->ilv_hash = mix64(S->ilv_hash ^ ((uint64_t)t->id << 56) ^ ((uint64_t)to->id << 48) ^ t->pts);
    if (S->nsw < (uint32_t)kMaxSw) {
        S->sw[S->nsw].tid = t->id;
        S->sw[S->nsw].to = to->id;
        S->sw[S->nsw].pts = t->pts;
        S->nsw++;
    }
}
// Who runs next, when t can (voluntary) or cannot go on.
static Thr* choose(Thr* t, bool voluntary) {
    Thr* cand[kMaxThr];
    int n = 0;
    for (int i = 0; i < g_nthr; ++i)
        if (g_thr[i].st == RUNNABLE && (&g_thr[i] != t)) cand[n++] = &g_thr[i];
    if (n == 0) return voluntary ? t : nullptr;
    Thr* to = nullptr;
    switch (g_cfg.mode) {
        case SchedCfg::RANDOM:
            to = cand[g_rng.below(n)];
            record(t, to);
            break;
        case SchedCfg::PCT:
            to = voluntary ? t : nullptr;
            for (int i = 0; i < n; ++i)
                if (!to || cand[i]->prio > to->prio) to = cand[i];
            if (to != t) record(t, to);
            break;
        case SchedCfg::REPLAY: {
            auto it = g_replay.find({(uint32_t)t->id, t->pts});
            if (it != g_replay.end())
                for (int i = 0; i < n; ++i)
                    if ((uint32_t)cand[i]->id == it->second) to = cand[i];
            if (to) record(t, to);
            else to = voluntary ? t : default_next(t);
            break;
        }
        default:
            to = voluntary ? t : default_next(t);
    }
    return to;
}

void slow_point(Thr* t) {
    uint64_t total = 0;
    for (int i = 0; i < g_nthr; ++i) total += g_thr[i].pts;
    if (total > kPointCap) violation("livelock", "no end after %llu scheduling points (%s)", (unsigned long long)total, S->phase);
    bool act = true;
    if (g_cfg.mode == SchedCfg::NONE) act = false;
    if (act && g_cfg.mode == SchedCfg::PCT) {
        double lo = 0;
        for (int i = 0; i < g_nthr; ++i) lo = std::min(lo, g_thr[i].prio);
        t->prio = lo - 1;
    }
    plan_next_stop(t);
    if (act) {
        Thr* to = choose(t, true);
        if (to != t) run(to);
    }
}
void sync_point() {
    Thr* t = me;
    if (!t || nlive < 2) return;
    if (++t->pts >= t->stop_at) { slow_point(t); return; }
    if (g_cfg.mode == SchedCfg::RANDOM) {
        if (g_rng.chance(g_cfg.p_sync)) run(choose(t, true));
    } else if (g_cfg.mode == SchedCfg::PCT) {
        Thr* to = choose(t, true);
        if (to != t) run(to);
    }
}
void forced_yield() {
    Thr* t = me;
    if (!t || nlive < 2) return;
    t->pts++;
    if (t->pts >= t->stop_at) plan_next_stop(t);
    uint64_t total = 0;
    for (int i = 0; i < g_nthr; ++i) total += g_thr[i].pts;
    if (total > kPointCap || ++t->yields > 2000000) violation("livelock", "threads wait for one another without progress (%s)", S->phase);
    if (g_cfg.mode == SchedCfg::PCT) {
        double lo = 0;
        for (int i = 0; i < g_nthr; ++i) lo = std::min(lo, g_thr[i].prio);
        t->prio = lo - 1;
    }
    Thr* to = default_next(t);
    if (to && to != t) run(to);
    t->spins = 0;
}
static void block_on(const void* obj) {
    Thr* t = me;
    t->pts++;
    t->st = BLOCKED;
    t->wait = obj;
    Thr* to = choose(t, false);
    if (!to) violation("deadlock", "every thread is blocked (%s)", S->phase);
    run(to);
    t->wait = nullptr;
}
static void wake(const void* obj, int max = INT_MAX) {
    for (int i = 0; i < g_nthr && max > 0; ++i)
        if (g_thr[i].st == BLOCKED && g_thr[i].wait == obj) { g_thr[i].st = RUNNABLE; --max; }
}

static Thr* new_thread() {
    if (g_nthr >= kMaxThr) violation("harness", "too many simulated threads");
    Thr* t = &g_thr[g_nthr];
    t->id = g_nthr++;
    t->st = IDLE;
    t->prio = g_rng.unit();
    t->vc.c[t->id] = 1;
    t->nthreads = g_cfg.max_threads;
    plan_next_stop(t);
    return t;
}
static void leave(Thr* t, int st) {   // t stops running: give the baton away without waiting for it
    t->pts++;
    t->st = st;
    --nlive;
    Thr* to = choose(t, false);
    if (!to) violation("deadlock", "every thread is blocked (%s)", S->phase);
    S->switches++;
    futex_post(&to->go);
}

void sched_init(const SchedCfg& cfg) {
    g_cfg = cfg;
    g_rng = Rng(cfg.seed);
    g_team_rng = Rng(cfg.team_seed ^ 0x7ea3);
    g_replay.clear();
    for (auto& s : cfg.replay) g_replay[{s.tid, s.pts}] = s.to;
    race_init();
    g_on = true;
    Thr* t = new_thread();
    t->st = RUNNABLE;
    nlive = 1;
    me = t;
}

// ---------------------------------------------------------------- happens-before
static void fork_vc(Thr* parent, Thr* child) {
    child->vc.join(parent->vc);
    child->vc.c[child->id]++;
    parent->vc.c[parent->id]++;
}
static void join_vc(Thr* parent, Thr* child) {
    parent->vc.join(child->vc);
    child->vc.c[child->id]++;
}
static void maybe_reset_shadow() {
    if (!tracking()) race_reset();
}

// ---------------------------------------------------------------- caller threads
static void* user_main(void* p) {
    Thr* t = (Thr*)p;
    me = t;
    futex_wait(&t->go);
    t->retval = nullptr;
    if (t->start) t->retval = t->start(t->start_arg);
    else { auto f = std::move(t->user); f(); }
    t->done = true;
    g_unjoined++;
    wake(t);
    leave(t, DONE);
    return t->retval;
}
static int real_create(pthread_t* h, void* (*f)(void*), void* arg) {
    static auto rc = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 1 << 20);
    int r = rc(h, &a, f, arg);
    pthread_attr_destroy(&a);
    return r;
}
static Thr* start_user(std::function<void()> fn, void* (*start)(void*), void* arg) {
    RtGuard rg;
    Thr* t = new_thread();
    t->user = std::move(fn);
    t->start = start;
    t->start_arg = arg;
    fork_vc(me, t);
    if (real_create(&t->h, user_main, t)) violation("harness", "pthread_create failed");
    t->st = RUNNABLE;
    ++nlive;
    S->max_live = std::max(S->max_live, (uint32_t)nlive);
    sync_point();
    return t;
}
static void wait_user(Thr* t) {
    while (!t->done) block_on(t);
    if (!t->joined) { t->joined = true; g_unjoined--; }
    join_vc(me, t);
    maybe_reset_shadow();
}
ThreadRef spawn(std::function<void()> fn) { return {start_user(std::move(fn), nullptr, nullptr)->id}; }
void join(ThreadRef r) { wait_user(&g_thr[r.id]); }

// ---------------------------------------------------------------- OpenMP teams
struct Ws {
    bool init = false;
    bool taken = false;
    long next = 0, end = 0, incr = 1, chunk = 1;
    bool ull = false, guided = false, up = true;
    void* copy = nullptr;
    bool copied = false;
};
struct Team {
    int n = 1, running = 0, arrived = 0;
    unsigned gen = 0;
    Team* parent = nullptr;
    std::map<unsigned, Ws> ws;
    VC bar, release;
};
static thread_local Ws* g_solo = nullptr;      // work-sharing region of a thread outside the simulation
static void* pool_main(void* p) {
    Thr* t = (Thr*)p;
    me = t;
    for (;;) {
        futex_wait(&t->go);
        t->fn(t->data);
        Team* tm = t->team;
        g_unjoined++;
        if (--tm->running == 0) wake(tm);
        leave(t, IDLE);
    }
    return nullptr;
}
static Thr* pool_kid(Thr* t, int i) {
    while (t->nkids <= i) {
        Thr* k = new_thread();
        if (real_create(&k->h, pool_main, k)) violation("harness", "pthread_create failed");
        t->kids[t->nkids++] = k;
    }
    return t->kids[i];
}
static int active_level(Thr* t) {
    int l = 0;
    for (Team* x = t->team; x; x = x->parent) l += x->n > 1;
    return l;
}
static void run_team(void (*fn)(void*), void* data, unsigned want, std::function<void(Team&)> prep) {
    Thr* t = me;
    if (t) ++t->in_rt;
    Team tm;
    if (!t) {                      // not inside a simulation: one thread does it all
        Ws* keep = g_solo;
        if (prep) { prep(tm); g_solo = &tm.ws[0]; }
        fn(data);
        g_solo = keep;
        return;
    }
    int n = want ? (int)want : t->nthreads;
    if (active_level(t) >= 1) n = 1;
    if (n > 16) n = 16;
    if (n > 1 && g_cfg.fewer) n = 1 + (int)g_team_rng.below(n);
    tm.n = n;
    tm.running = n - 1;
    tm.parent = t->team;
    if (prep) prep(tm);
    int stnum = t->tnum;
    unsigned sws = t->ws;
    Ws* scur = t->cur;
    // A combined construct (parallel loop, parallel sections) starts inside its work-sharing region.
    Ws* first = prep ? &tm.ws[0] : nullptr;
    t->team = &tm;
    t->tnum = 0;
    t->ws = prep ? 1 : 0;
    t->cur = first;
    if (n > 1) {
        S->teams++;
        for (int i = 1; i < n; ++i) {
            Thr* k = pool_kid(t, i - 1);
            fork_vc(t, k);
            k->team = &tm;
            k->tnum = i;
            k->ws = prep ? 1 : 0;
            k->cur = first;
            k->fn = fn;
            k->data = data;
            k->st = RUNNABLE;
            ++nlive;
        }
        S->max_live = std::max(S->max_live, (uint32_t)nlive);
        sync_point();
    }
    int depth = t->in_rt;
    t->in_rt = 0;
    fn(data);
    t->in_rt = depth;
    if (n > 1) {
        while (tm.running > 0) block_on(&tm);
        for (int i = 1; i < n; ++i) { join_vc(t, t->kids[i - 1]); t->kids[i - 1]->team = nullptr; }
        g_unjoined -= n - 1;
    }
    t->team = tm.parent;
    t->tnum = stnum;
    t->ws = sws;
    t->cur = scur;
    if (n > 1) maybe_reset_shadow();
    --t->in_rt;
}
static void team_barrier() {
    Thr* t = me;
    if (!t || !t->team || t->team->n < 2) return;
    Team* tm = t->team;
    sync_point();
    unsigned g = tm->gen;
    tm->bar.join(t->vc);
    t->vc.c[t->id]++;
    if (++tm->arrived == tm->n) {
        tm->arrived = 0;
        tm->gen++;
        tm->release = tm->bar;
        wake(&tm->gen);
    } else {
        while (tm->gen == g) block_on(&tm->gen);
    }
    t->vc.join(tm->release);
}
} // namespace sim

using namespace sim;

// ================================================================= libgomp entry points
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { run_team(fn, data, n, nullptr); }

static Ws* ws_enter(bool* first) {
    RtGuard rg;
    Thr* t = me;
    static thread_local Ws solo;
    if (!t || !t->team) { solo = Ws(); *first = true; if (t) t->cur = &solo; else g_solo = &solo; return &solo; }
    sync_point();
    Ws* w = &t->team->ws[t->ws++];
    t->cur = w;
    *first = !w->init;
    w->init = true;
    return w;
}
static bool ws_next(long* a, long* b) {
    Thr* t = me;
    Ws* w = t ? t->cur : g_solo;
    if (!w) return false;
    sync_point();
    hb_acquire(w); hb_release(w);
    long left;
    if (w->ull) left = w->up ? (long)((unsigned long)w->end - (unsigned long)w->next) : (long)((unsigned long)w->next - (unsigned long)w->end);
    else left = w->up ? w->end - w->next : w->next - w->end;
    if (left <= 0) return false;
    long step = w->incr < 0 ? -w->incr : w->incr;
    long iters = (left + step - 1) / step;
    long c = w->chunk < 1 ? 1 : w->chunk;
    if (w->guided && t && t->team) c = std::max(c, iters / t->team->n);
    if (c > iters) c = iters;
    *a = w->next;
    long e = w->next + c * w->incr;
    if (w->up ? e > w->end : e < w->end) e = w->end;
    *b = e;
    w->next = e;
    return true;
}
static void ws_set(Ws* w, long s, long e, long incr, long chunk, bool guided) {
    w->next = s; w->end = e; w->incr = incr; w->chunk = chunk; w->guided = guided; w->up = incr > 0; w->ull = false;
}
#define LOOP(NAME, GUIDED)                                                                         \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* a, long* b) {              \
        bool f; Ws* w = ws_enter(&f);                                                              \
        if (f) ws_set(w, s, e, i, c, GUIDED);                                                      \
        return ws_next(a, b);                                                                      \
    }                                                                                              \
    bool GOMP_loop_##NAME##_next(long* a, long* b) { return ws_next(a, b); }                       \
    bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e,         \
            unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { \
        bool f; Ws* w = ws_enter(&f);                                                              \
        if (f) { ws_set(w, (long)s, (long)e, (long)i, (long)c, GUIDED); w->up = up; w->ull = true; } \
        return ws_next((long*)a, (long*)b);                                                        \
    }                                                                                              \
    bool GOMP_loop_ull_##NAME##_next(unsigned long long* a, unsigned long long* b) { return ws_next((long*)a, (long*)b); } \
    void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { \
        RtGuard rg; run_team(fn, d, n, [=](Team& tm) { Ws& w = tm.ws[0]; w.init = true; ws_set(&w, s, e, i, c, GUIDED); }); \
    }
LOOP(dynamic, false)
LOOP(guided, true)
LOOP(nonmonotonic_dynamic, false)
LOOP(nonmonotonic_guided, true)
#undef LOOP
// schedule(runtime) and friends carry no chunk
#define RLOOP(NAME)                                                                                \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long* a, long* b) {                      \
        return GOMP_loop_dynamic_start(s, e, i, 1, a, b);                                          \
    }                                                                                              \
    bool GOMP_loop_##NAME##_next(long* a, long* b) { return ws_next(a, b); }                       \
    bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, \
            unsigned long long* a, unsigned long long* b) {                                        \
        return GOMP_loop_ull_dynamic_start(up, s, e, i, 1, a, b);                                  \
    }                                                                                              \
    bool GOMP_loop_ull_##NAME##_next(unsigned long long* a, unsigned long long* b) { return ws_next((long*)a, (long*)b); } \
    void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned f) { \
        GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f);                                       \
    }
RLOOP(runtime)
RLOOP(nonmonotonic_runtime)
RLOOP(maybe_nonmonotonic_runtime)
#undef RLOOP
void GOMP_loop_end(void) { team_barrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_loop_end_cancel(void) { team_barrier(); return false; }
void GOMP_barrier(void) { team_barrier(); }
bool GOMP_barrier_cancel(void) { team_barrier(); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }

// Loops with an ordered region: one thread takes all iterations (a schedule the standard allows).
#define OLOOP(NAME)                                                                                \
    bool GOMP_loop_ordered_##NAME##_start(long s, long e, long i, long, long* a, long* b) {        \
        bool f; Ws* w = ws_enter(&f);                                                              \
        if (f) ws_set(w, s, e, i, 1L << 40, false);                                                \
        return ws_next(a, b);                                                                      \
    }                                                                                              \
    bool GOMP_loop_ordered_##NAME##_next(long* a, long* b) { return ws_next(a, b); }               \
    bool GOMP_loop_ull_ordered_##NAME##_start(bool up, unsigned long long s, unsigned long long e, \
            unsigned long long i, unsigned long long, unsigned long long* a, unsigned long long* b) { \
        bool f; Ws* w = ws_enter(&f);                                                              \
        if (f) { ws_set(w, (long)s, (long)e, (long)i, 1L << 40, false); w->up = up; w->ull = true; } \
        return ws_next((long*)a, (long*)b);                                                        \
    }                                                                                              \
    bool GOMP_loop_ull_ordered_##NAME##_next(unsigned long long* a, unsigned long long* b) { return ws_next((long*)a, (long*)b); }
OLOOP(static)
OLOOP(dynamic)
OLOOP(guided)
#undef OLOOP
bool GOMP_loop_ordered_runtime_start(long s, long e, long i, long* a, long* b) { return GOMP_loop_ordered_dynamic_start(s, e, i, 1, a, b); }
bool GOMP_loop_ordered_runtime_next(long* a, long* b) { return ws_next(a, b); }
bool GOMP_loop_ull_ordered_runtime_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* a, unsigned long long* b) {
    return GOMP_loop_ull_ordered_dynamic_start(up, s, e, i, 1, a, b);
}
bool GOMP_loop_ull_ordered_runtime_next(unsigned long long* a, unsigned long long* b) { return ws_next((long*)a, (long*)b); }

// Explicit tasks run at once, on the thread that meets them (a schedule the standard allows).
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
    if (!cpy) { fn(data); return; }
    std::vector<char> buf(size + align);
    char* p = (char*)(((uintptr_t)buf.data() + align - 1) / align * align);
    cpy(p, data);
    fn(p);
}
extern "C++" {
template <class T> static void taskloop(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, T s, T e) {
    std::vector<char> buf(size + align);
    char* p = (char*)(((uintptr_t)buf.data() + align - 1) / align * align);
    if (cpy) cpy(p, data); else memcpy(p, data, size);
    ((T*)p)[0] = s;
    ((T*)p)[1] = e;
    fn(p);
}
}
void GOMP_taskloop(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, unsigned, unsigned long, int, long s, long e, long) {
    taskloop<long>(fn, data, cpy, size, align, s, e);
}
void GOMP_taskloop_ull(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, unsigned, unsigned long, int, unsigned long long s, unsigned long long e, unsigned long long) {
    taskloop<unsigned long long>(fn, data, cpy, size, align, s, e);
}
void GOMP_taskwait(void) {}
void GOMP_taskwait_depend(void**) {}
void GOMP_taskyield(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}

bool GOMP_single_start(void) {
    bool f;
    ws_enter(&f);
    return f;
}
void* GOMP_single_copy_start(void) {
    bool f;
    Ws* w = ws_enter(&f);
    if (f) return nullptr;
    while (!w->copied) block_on(w);
    hb_acquire(w);
    return w->copy;
}
void GOMP_single_copy_end(void* p) {
    Thr* t = me;
    if (!t || !t->cur) return;
    t->cur->copy = p;
    t->cur->copied = true;
    hb_release(t->cur);
    wake(t->cur);
}
unsigned GOMP_sections_next(void) {
    long a, b;
    return ws_next(&a, &b) ? (unsigned)a : 0;
}
unsigned GOMP_sections_start(unsigned n) {
    bool f;
    Ws* w = ws_enter(&f);
    if (f) ws_set(w, 1, (long)n + 1, 1, 1, false);
    return GOMP_sections_next();
}
void GOMP_sections_end(void) { team_barrier(); }
bool GOMP_sections_end_cancel(void) { team_barrier(); return false; }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned cnt, unsigned) {
    RtGuard rg; run_team(fn, d, n, [=](Team& tm) { Ws& w = tm.ws[0]; w.init = true; ws_set(&w, 1, (long)cnt + 1, 1, 1, false); });
}
} // extern "C"

// ================================================================= locks
namespace {
struct SimLock { int owner = -1; int depth = 0; };
std::map<const void*, SimLock>& locks() { static auto* m = new std::map<const void*, SimLock>(); return *m; }

void lock(const void* a, bool recursive = false) {
    RtGuard rg;
    Thr* t = me;
    sync_point();
    for (;;) {
        SimLock& l = locks()[a];
        if (l.owner < 0 || (recursive && l.owner == t->id)) {
            l.owner = t->id;
            l.depth++;
            break;
        }
        block_on(a);
    }
    hb_acquire(a);
}
bool trylock(const void* a, bool recursive = false) {
    RtGuard rg;
    Thr* t = me;
    sync_point();
    SimLock& l = locks()[a];
    if (l.owner < 0 || (recursive && l.owner == t->id)) {
        l.owner = t->id;
        l.depth++;
        hb_acquire(a);
        return true;
    }
    if (++t->spins > 20) forced_yield();
    return false;
}
void unlock(const void* a, bool point = true) {
    RtGuard rg;
    hb_release(a);
    SimLock& l = locks()[a];
    if (--l.depth <= 0) {
        l.depth = 0;
        l.owner = -1;
        wake(a);
    }
    if (point) sync_point();
}
// Readers-writer locks: readers > 0, or owner.
struct SimRw { int readers = 0, writer = -1; };
std::map<const void*, SimRw>& rws() { static auto* m = new std::map<const void*, SimRw>(); return *m; }
bool rw_lock(const void* a, bool write, bool wait) {
    RtGuard rg;
    Thr* t = me;
    sync_point();
    for (;;) {
        SimRw& l = rws()[a];
        if (l.writer < 0 && (!write || l.readers == 0)) {
            if (write) l.writer = t->id; else l.readers++;
            hb_acquire(a);
            if (write) hb_acquire((const char*)a + 1);     // readers' clocks order writers only
            return true;
        }
        if (!wait) return false;
        block_on(a);
    }
}
void rw_unlock(const void* a) {
    RtGuard rg;
    SimRw& l = rws()[a];
    hb_release(l.writer >= 0 ? a : (const char*)a + 1);
    if (l.writer >= 0) l.writer = -1; else if (l.readers > 0) l.readers--;
    if (l.readers == 0) wake(a);
    sync_point();
}
char g_critical, g_atomic;
} // namespace

extern "C" {
void GOMP_critical_start(void) { if (me) lock(&g_critical); }
void GOMP_critical_end(void) { if (me) unlock(&g_critical); }
void GOMP_critical_name_start(void** p) { if (me) lock(p); }
void GOMP_critical_name_end(void** p) { if (me) unlock(p); }
void GOMP_atomic_start(void) { if (me) lock(&g_atomic); }
void GOMP_atomic_end(void) { if (me) unlock(&g_atomic); }
void GOMP_ordered_start(void) {}
void GOMP_ordered_end(void) {}

int omp_get_thread_num(void) { return me ? me->tnum : 0; }
int omp_get_num_threads(void) { return me && me->team ? me->team->n : 1; }
int omp_get_max_threads(void) { return me ? me->nthreads : 1; }
int omp_get_num_procs(void) { return g_on ? g_cfg.max_threads : 1; }
int omp_in_parallel(void) { return me && active_level(me) > 0; }
void omp_set_num_threads(int n) { if (me && n > 0) me->nthreads = n; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_nested(void) { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels(void) { return 1; }
int omp_get_thread_limit(void) { return 64; }
int omp_get_level(void) { int l = 0; if (me) for (Team* x = me->team; x; x = x->parent) ++l; return l; }
int omp_get_active_level(void) { return me ? active_level(me) : 0; }
int omp_get_ancestor_thread_num(int l) { return l == omp_get_level() ? omp_get_thread_num() : 0; }
int omp_get_team_size(int l) { return l == omp_get_level() ? omp_get_num_threads() : 1; }
double omp_get_wtime(void) { static double w = 0; return w += 1e-6; }
double omp_get_wtick(void) { return 1e-6; }
struct omp_lock_s { int x; };
void omp_init_lock(omp_lock_s* l) { l->x = 0; }
void omp_destroy_lock(omp_lock_s*) {}
void omp_set_lock(omp_lock_s* l) { if (me) lock(l); }
void omp_unset_lock(omp_lock_s* l) { if (me) unlock(l); }
int omp_test_lock(omp_lock_s* l) { return me ? trylock(l) : 1; }
void omp_init_nest_lock(omp_lock_s* l) { l->x = 0; }
void omp_destroy_nest_lock(omp_lock_s*) {}
void omp_set_nest_lock(omp_lock_s* l) { if (me) lock(l, true); }
void omp_unset_nest_lock(omp_lock_s* l) { if (me) unlock(l); }

// ----------------------------------------------------------------- pthreads (std::thread, std::mutex, ...)
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
    if (!me) {
        static auto rc = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
        return rc(h, a, f, arg);
    }
    Thr* t = start_user({}, f, arg);
    *h = t->h;
    return 0;
}
static Thr* by_handle(pthread_t h) {
    for (int i = 1; i < g_nthr; ++i)
        if (pthread_equal(g_thr[i].h, h) && (g_thr[i].start || g_thr[i].user || g_thr[i].done)) return &g_thr[i];
    return nullptr;
}
int pthread_join(pthread_t h, void** r) {
    Thr* t = me ? by_handle(h) : nullptr;
    if (!t) {
        static auto rj = real<int (*)(pthread_t, void**)>("pthread_join");
        return rj(h, r);
    }
    wait_user(t);
    if (r) *r = t->retval;
    return 0;
}
int pthread_detach(pthread_t h) {
    Thr* t = me ? by_handle(h) : nullptr;
    if (!t) {
        static auto rd = real<int (*)(pthread_t)>("pthread_detach");
        return rd(h);
    }
    return 0;
}
static bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (me) { lock(m, is_recursive(m)); return 0; }
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    return r ? r(m) : 0;
}
// Simulated time: a wait with a time limit always gets the lock in time.
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
    if (me) { lock(m, is_recursive(m)); return 0; }
    static auto r = real<int (*)(pthread_mutex_t*, const struct timespec*)>("pthread_mutex_timedlock");
    return r(m, ts);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
    if (me) { lock(m, is_recursive(m)); return 0; }
    static auto r = real<int (*)(pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_mutex_clocklock");
    return r(m, k, ts);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (me) return trylock(m, is_recursive(m)) ? 0 : EBUSY;
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    return r ? r(m) : 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (me) { unlock(m); return 0; }
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    return r ? r(m) : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (me) {
        sync_point();
        unlock(m, false);
        block_on(c);
        lock(m);
        hb_acquire(c);
        return 0;
    }
    static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
    return r(c, m);
}
// Timed waits: the simulator lets them time out when it is their turn again (time is its own).
static int timed_wait(pthread_mutex_t* m) {
    unlock(m, false);
    forced_yield();
    lock(m);
    return ETIMEDOUT;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    if (me) { hb_acquire(c); return timed_wait(m); }
    static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait");
    return r(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
    if (me) { hb_acquire(c); return timed_wait(m); }
    static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait");
    return r(c, m, k, ts);
}
#define RWLOCK(NAME, WRITE, WAIT)                                                                  \
    int pthread_rwlock_##NAME(pthread_rwlock_t* l) {                                               \
        if (me) return rw_lock(l, WRITE, WAIT) ? 0 : EBUSY;                                        \
        static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_" #NAME);                 \
        return r ? r(l) : 0;                                                                       \
    }
RWLOCK(rdlock, false, true)
RWLOCK(wrlock, true, true)
RWLOCK(tryrdlock, false, false)
RWLOCK(trywrlock, true, false)
#undef RWLOCK
#define RWTIMED(NAME, WRITE)                                                                       \
    int pthread_rwlock_timed##NAME(pthread_rwlock_t* l, const struct timespec* ts) {               \
        if (me) { rw_lock(l, WRITE, true); return 0; }                                             \
        static auto r = real<int (*)(pthread_rwlock_t*, const struct timespec*)>("pthread_rwlock_timed" #NAME); \
        return r(l, ts);                                                                           \
    }                                                                                              \
    int pthread_rwlock_clock##NAME(pthread_rwlock_t* l, clockid_t k, const struct timespec* ts) {  \
        if (me) { rw_lock(l, WRITE, true); return 0; }                                             \
        static auto r = real<int (*)(pthread_rwlock_t*, clockid_t, const struct timespec*)>("pthread_rwlock_clock" #NAME); \
        return r(l, k, ts);                                                                        \
    }
RWTIMED(rdlock, false)
RWTIMED(wrlock, true)
#undef RWTIMED
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (me) { rw_unlock(l); return 0; }
    static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
    return r ? r(l) : 0;
}
int pthread_spin_lock(pthread_spinlock_t* l) { if (me) lock((const void*)l); return 0; }
int pthread_spin_unlock(pthread_spinlock_t* l) { if (me) unlock((const void*)l); return 0; }
int pthread_cond_signal(pthread_cond_t* c) {
    if (me) { hb_release(c); wake(c, 1); sync_point(); return 0; }
    static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
    return r ? r(c) : 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (me) { hb_release(c); wake(c); sync_point(); return 0; }
    static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
    return r ? r(c) : 0;
}
int sched_yield(void) {
    if (me) { forced_yield(); return 0; }
    return (int)syscall(SYS_sched_yield);
}
int nanosleep(const struct timespec* a, struct timespec* b) {
    if (me) { forced_yield(); return 0; }
    return (int)syscall(SYS_nanosleep, a, b);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) {
    if (me) { forced_yield(); return 0; }
    return (int)syscall(SYS_clock_nanosleep, c, f, a, b);
}
int usleep(useconds_t) { if (me) forced_yield(); return 0; }

// ----------------------------------------------------------------- guarded statics and once
int sim_guard_acquire(uint64_t* g) __asm__("__cxa_guard_acquire");
void sim_guard_release(uint64_t* g) __asm__("__cxa_guard_release");
void sim_guard_abort(uint64_t* g) __asm__("__cxa_guard_abort");
int sim_guard_acquire(uint64_t* g) {
    unsigned char* done = (unsigned char*)g;
    unsigned char* busy = done + 1;
    if (__atomic_load_n(done, __ATOMIC_ACQUIRE)) { if (me) hb_acquire(g); return 0; }
    if (me) {
        if (!me->in_rt) sync_point();
        while (*busy && !*done) block_on(g);
        hb_acquire(g);
        if (*done) return 0;
    }
    *busy = 1;
    return 1;
}
void sim_guard_release(uint64_t* g) {
    unsigned char* done = (unsigned char*)g;
    if (me) hb_release(g);
    done[1] = 0;
    __atomic_store_n(done, 1, __ATOMIC_RELEASE);
    if (me) { wake(g); if (!me->in_rt) sync_point(); }
}
void sim_guard_abort(uint64_t* g) {
    ((unsigned char*)g)[1] = 0;
    if (me) { wake(g); sync_point(); }
}
int pthread_once(pthread_once_t* o, void (*f)(void)) {
    if (!me) {
        static auto r = real<int (*)(pthread_once_t*, void (*)(void))>("pthread_once");
        return r(o, f);
    }
    volatile int* st = (volatile int*)o;
    sync_point();
    while (*st == 1) block_on(o);
    if (*st == 0) {
        *st = 1;
        try { f(); } catch (...) { *st = 0; wake(o); throw; }
        hb_release(o);
        *st = 2;
        wake(o);
    }
    hb_acquire(o);
    return 0;
}
} // extern "C"

// std::future / std::async wait on a futex inside libstdc++
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool, std::chrono::seconds, std::chrono::nanoseconds) {
    while (__atomic_load_n(a, __ATOMIC_SEQ_CST) == v) forced_yield();
    return true;
}
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool, std::chrono::seconds, std::chrono::nanoseconds) {
    while (__atomic_load_n(a, __ATOMIC_SEQ_CST) == v) forced_yield();
    return true;
}
void std::__atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) { if (me) sync_point(); }
