// Self-test of the simulator: threading constructs with a known answer, built with the library's
// flags.  "ok_*" cases must give their answer without a race, "race_*" cases must be reported.
#include "plan.hpp"
#include <atomic>
#include <chrono>
#include <cstring>
#include <condition_variable>
#include <future>
#include <mutex>
#include <numeric>
#include <omp.h>
#include <random>
#include <shared_mutex>
#include <stdexcept>
#include <thread>

namespace {
constexpr int N = 97;
constexpr long SUM = (long)N * (N - 1) / 2;
long total(const std::vector<long>& v) { return std::accumulate(v.begin(), v.end(), 0L); }
#define FORS(NAME, CLAUSE)                                                          \
    long par_##NAME() { std::vector<long> v(N); _Pragma(CLAUSE) for (int i = 0; i < N; ++i) v[i] += i; return total(v); }
FORS(plain, "omp parallel for")
FORS(stat, "omp parallel for schedule(static,3)")
FORS(dyn, "omp parallel for schedule(dynamic)")
FORS(dyn4, "omp parallel for schedule(dynamic,4)")
FORS(mono, "omp parallel for schedule(monotonic:dynamic,2)")
FORS(guid, "omp parallel for schedule(guided,2)")
FORS(rt, "omp parallel for schedule(runtime)")
FORS(autos, "omp parallel for schedule(auto)")
FORS(nt, "omp parallel for num_threads(3)")
FORS(cond, "omp parallel for if(N > 1000)")
FORS(simd, "omp parallel for simd")
FORS(tl, "omp taskloop shared(v)")
long par_down() { std::vector<long> v(N); 
    #pragma omp parallel for schedule(dynamic,3)
    for (int i = N - 1; i >= 0; --i) v[i] += i;
    return total(v); }
long par_ull() { std::vector<long> v(N);
    #pragma omp parallel for schedule(dynamic,3)
    for (size_t i = 0; i < (size_t)N; ++i) v[i] += i;
    return total(v); }
long par_ull_stat() { std::vector<long> v(N);
    #pragma omp parallel for
    for (unsigned long long i = 0; i < (unsigned long long)N; ++i) v[i] += i;
    return total(v); }
long split() { std::vector<long> v(N), w(N);
    #pragma omp parallel
    {
        #pragma omp for schedule(dynamic,2)
        for (int i = 0; i < N; ++i) v[i] = i;
        #pragma omp for schedule(guided)
        for (int i = 0; i < N; ++i) w[i] = v[N - 1 - i];
        #pragma omp for nowait
        for (int i = 0; i < N; ++i) v[i] += w[i];
        #pragma omp for nowait
        for (int i = 0; i < N; ++i) v[i] -= w[i];
    }
    return total(v); }
long reduce() { long s = 0;
    #pragma omp parallel for reduction(+ : s)
    for (int i = 0; i < N; ++i) s += i;
    return s; }
long reduce_dyn() { long s = 0;
    #pragma omp parallel for schedule(dynamic) reduction(+ : s)
    for (int i = 0; i < N; ++i) s += i;
    return s; }
long reduce_dbl() { double s = 0;
    #pragma omp parallel for reduction(+ : s)
    for (int i = 0; i < N; ++i) s += i;
    return (long)s; }
long reduce_max() { long m = 0;
    #pragma omp parallel for reduction(max : m)
    for (int i = 0; i < N; ++i) m = std::max(m, (long)i);
    return SUM - (N - 1) + m; }
long reduce_arr() { long a[3] = {0, 0, 0};
    #pragma omp parallel for reduction(+ : a[:3])
    for (int i = 0; i < N; ++i) a[i % 3] += i;
    return a[0] + a[1] + a[2]; }
long collapse() { std::vector<long> v(N);
    #pragma omp parallel for collapse(2) schedule(dynamic,2)
    for (int i = 0; i < N / 10; ++i) for (int j = 0; j < 10; ++j) v[i * 10 + j] = i * 10 + j;
    for (int i = N / 10 * 10; i < N; ++i) v[i] = i;
    return total(v); }
long atomics() { long s = 0;
    #pragma omp parallel for
    for (int i = 0; i < N; ++i) {
        #pragma omp atomic
        s += i;
    }
    return s; }
long atomics_dbl() { double s = 0;
    #pragma omp parallel for
    for (int i = 0; i < N; ++i) {
        #pragma omp atomic
        s += i;
    }
    return (long)s; }
long critical() { long s = 0;
    #pragma omp parallel for
    for (int i = 0; i < N; ++i) {
        #pragma omp critical
        s += i;
    }
    return s; }
long named() { long s = 0;
    #pragma omp parallel for
    for (int i = 0; i < N; ++i) {
        #pragma omp critical(self_a)
        s += i;
    }
    return s; }
long sections() { long a = 0, b = 0, c = 0;
    #pragma omp parallel sections
    {
        #pragma omp section
        a = SUM;
        #pragma omp section
        b = 5;
        #pragma omp section
        c = -5;
    }
    return a + b + c; }
long sections2() { long a = 0, b = 0;
    #pragma omp parallel
    {
        #pragma omp sections
        {
            #pragma omp section
            a = SUM - 7;
            #pragma omp section
            b = 7;
        }
    }
    return a + b; }
long single() { long s = 0;
    #pragma omp parallel
    {
        #pragma omp single
        s = SUM - 1;
        #pragma omp master
        s += 1;
    }
    return s; }
long copyprivate() { long s = 0;
    #pragma omp parallel
    {
        long x;
        #pragma omp single copyprivate(x)
        x = SUM;
        #pragma omp critical
        s = x;
    }
    return s; }
long ordered() { std::vector<int> o;
    #pragma omp parallel for ordered schedule(dynamic)
    for (int i = 0; i < N; ++i) {
        #pragma omp ordered
        o.push_back(i);
    }
    long s = 0;
    for (int i = 0; i < (int)o.size(); ++i) s += o[i] == i ? i : 100000;
    return s; }
long tasks() { long s = 0;
    #pragma omp parallel
    #pragma omp single
    for (int i = 0; i < N; ++i) {
        #pragma omp task firstprivate(i) shared(s)
        {
            #pragma omp atomic
            s += i;
        }
    }
    return s; }
long barrier() { std::vector<long> v(64); long s = 0;
    #pragma omp parallel
    {
        int t = omp_get_thread_num();
        v[t] = t + 1;
        #pragma omp barrier
        if (t == 0) for (int i = 0; i < omp_get_num_threads(); ++i) s += v[i] == i + 1 ? 0 : 1000;
    }
    return s + SUM; }
long nested() { std::vector<long> v(N);
    #pragma omp parallel for num_threads(2)
    for (int i = 0; i < 2; ++i) {
        #pragma omp parallel for
        for (int j = i; j < N; j += 2) v[j] = j;
    }
    return total(v); }
long locks() { omp_lock_t l; omp_init_lock(&l); long s = 0;
    #pragma omp parallel for
    for (int i = 0; i < N; ++i) { omp_set_lock(&l); s += i; omp_unset_lock(&l); }
    omp_destroy_lock(&l);
    return s; }
long rethrow() { std::exception_ptr e; int got = 0;
    #pragma omp parallel for schedule(dynamic)
    for (int i = 0; i < N; ++i) {
        try { if (i == 40) throw std::runtime_error("x"); }
        catch (...) {
            #pragma omp critical
            e = std::current_exception();
        }
    }
    try { if (e) std::rethrow_exception(e); } catch (const std::runtime_error&) { got = 1; }
    return got ? SUM : 0; }
long lastpriv() { long x = 0;
    #pragma omp parallel for lastprivate(x) schedule(dynamic)
    for (int i = 0; i < N; ++i) x = i;
    return SUM - (N - 1) + x; }
template <class F> void fan(int n, F f) {
    std::vector<std::thread> t;
    for (int i = 0; i < n; ++i) t.emplace_back(f, i);
    for (auto& x : t) x.join();
}
long std_mutex() { long s = 0; std::mutex m;
    fan(3, [&](int k) { for (int i = k; i < N; i += 3) { std::lock_guard<std::mutex> g(m); s += i; } });
    return s; }
long std_recursive() { long s = 0; std::recursive_mutex m;
    fan(3, [&](int k) { for (int i = k; i < N; i += 3) { std::lock_guard<std::recursive_mutex> g(m); std::lock_guard<std::recursive_mutex> h(m); s += i; } });
    return s; }
long std_timed() { long s = 0; std::timed_mutex m;
    fan(2, [&](int k) { for (int i = k; i < N; i += 2) { while (!m.try_lock_for(std::chrono::milliseconds(5))) {} s += i; m.unlock(); } });
    return s; }
long std_shared() { long s = 0, seen = 0; std::shared_mutex m;
    fan(3, [&](int k) { for (int i = k; i < N; i += 3) { std::unique_lock<std::shared_mutex> g(m); s += i; g.unlock(); std::shared_lock<std::shared_mutex> r(m); if (s < 0) seen = 1; } });
    return s; }
long std_cond() { std::mutex m; std::condition_variable c; int turn = 0; long s = 0;
    fan(2, [&](int k) {
        for (int i = k; i < N; i += 2) {
            std::unique_lock<std::mutex> l(m);
            c.wait(l, [&] { return turn == i; });
            s += i; ++turn;
            l.unlock();
            c.notify_all();
        }
    });
    return s; }
long std_cond_for() { std::mutex m; std::condition_variable c; bool go = false; long s = 0;
    std::thread t([&] { std::unique_lock<std::mutex> l(m); while (!c.wait_for(l, std::chrono::milliseconds(10), [&] { return go; })) {} s = SUM; });
    { std::lock_guard<std::mutex> l(m); go = true; }
    c.notify_one();
    t.join();
    return s; }
long std_async() { auto a = std::async(std::launch::async, [] { long s = 0; for (int i = 0; i < N; i += 2) s += i; return s; });
    auto b = std::async(std::launch::async, [] { long s = 0; for (int i = 1; i < N; i += 2) s += i; return s; });
    return a.get() + b.get(); }
long std_promise() { std::promise<long> p; auto f = p.get_future(); std::thread t([&] { p.set_value(SUM); }); long v = f.get(); t.join(); return v; }
long std_once() { static std::atomic<int> n; n = 0; std::once_flag f; fan(4, [&](int) { std::call_once(f, [] { ++n; }); }); return n == 1 ? SUM : 0; }
long std_local() { fan(3, [](int) { static std::vector<long> v(5, 7); if (v[4] != 7) abort(); }); return SUM; }
long std_tls() { long s = 0; std::mutex m; fan(3, [&](int k) { thread_local long t = 0; t = 0; for (int i = k; i < N; i += 3) t += i; std::lock_guard<std::mutex> g(m); s += t; }); return s; }
long std_atomic() { std::atomic<long> s{0}; fan(3, [&](int k) { for (int i = k; i < N; i += 3) s += i; }); return s; }
long std_relacq() { long v = 0; std::atomic<int> f{0};
    std::thread t([&] { v = SUM; f.store(1, std::memory_order_release); });
    while (!f.load(std::memory_order_acquire)) std::this_thread::yield();
    long r = v; t.join(); return r; }
long std_cas() { std::atomic<long> s{0}; fan(3, [&](int k) { for (int i = k; i < N; i += 3) { long e = s.load(); while (!s.compare_exchange_weak(e, e + i)) {} } }); return s; }
long std_spin() { std::atomic_flag f = ATOMIC_FLAG_INIT; long s = 0;
    fan(3, [&](int k) { for (int i = k; i < N; i += 3) { while (f.test_and_set(std::memory_order_acquire)) std::this_thread::yield(); s += i; f.clear(std::memory_order_release); } });
    return s; }
long std_omp() { long s = 0; std::mutex m; fan(2, [&](int k) { long t = 0;
    #pragma omp parallel for reduction(+ : t) schedule(dynamic)
    for (int i = k; i < N; i += 2) t += i;
    std::lock_guard<std::mutex> g(m); s += t; });
    return s; }
long omp_mutex() { long s = 0; std::mutex m;
    #pragma omp parallel for
    for (int i = 0; i < N; ++i) { std::lock_guard<std::mutex> g(m); s += i; }
    return s; }
long std_sleep() { fan(2, [](int) { std::this_thread::sleep_for(std::chrono::milliseconds(1)); }); return SUM; }

// races
long r_sum() { long s = 0;
    #pragma omp parallel for
    for (int i = 0; i < N; ++i) s += i;
    return s; }
long r_dyn() { long s = 0;
    #pragma omp parallel for schedule(dynamic)
    for (int i = 0; i < N; ++i) s += i;
    return s; }
long r_nowait() { std::vector<long> v(N), w(N);
    #pragma omp parallel
    {
        #pragma omp for nowait
        for (int i = 0; i < N; ++i) v[i] = i;
        #pragma omp for
        for (int i = 0; i < N; ++i) w[i] = v[N - 1 - i];
    }
    return total(w); }
long r_sections() { long a = 0;
    #pragma omp parallel sections
    {
        #pragma omp section
        a += 1;
        #pragma omp section
        a += 2;
    }
    return a; }
long r_names() { long s = 0;
    #pragma omp parallel
    {
        if (omp_get_thread_num() % 2) {
            #pragma omp critical(self_x)
            ++s;
        } else {
            #pragma omp critical(self_y)
            ++s;
        }
    }
    return s; }
long r_thread() { long s = 0; fan(2, [&](int) { for (int i = 0; i < 4; ++i) ++s; }); return s; }
long r_flag() { long v = 0; std::atomic<int> f{0};
    std::thread t([&] { v = SUM; f.store(1, std::memory_order_relaxed); });
    while (!f.load(std::memory_order_relaxed)) std::this_thread::yield();
    long r = v; t.join(); return r; }
long r_shared() { long s = 0; std::shared_mutex m; fan(2, [&](int) { std::shared_lock<std::shared_mutex> g(m); ++s; }); return s; }
long r_static() { static std::vector<int> v; v.assign(4, 0); fan(2, [](int k) { v[1] = k; }); return v[1]; }
long r_memcpy() { static char a[64], b[64]; b[1] = a[2] = (char)omp_get_max_threads(); fan(2, [](int k) { volatile size_t n = 40; memcpy(a, b, n); }); return a[1]; }

struct Case { const char* name; long (*fn)(); bool race, teams; };
#define C(f) {"ok_" #f, f, false, true}
#define R(f, teams) {"race_" #f, f, true, teams}
const Case kCases[] = {
    C(par_plain), C(par_stat), C(par_dyn), C(par_dyn4), C(par_mono), C(par_guid), C(par_rt), C(par_autos), C(par_nt), C(par_cond),
    C(par_simd), C(par_tl), C(par_down), C(par_ull), C(par_ull_stat), C(split), C(reduce), C(reduce_dyn), C(reduce_dbl), C(reduce_max),
    C(reduce_arr), C(collapse), C(atomics), C(atomics_dbl), C(critical), C(named), C(sections), C(sections2), C(single), C(copyprivate),
    C(ordered), C(tasks), C(barrier), C(nested), C(locks), C(rethrow), C(lastpriv), C(std_mutex), C(std_recursive), C(std_timed),
    C(std_shared), C(std_cond), C(std_cond_for), C(std_async), C(std_promise), C(std_once), C(std_local), C(std_tls), C(std_atomic),
    C(std_relacq), C(std_cas), C(std_spin), C(std_omp), C(omp_mutex), C(std_sleep),
    R(r_sum, true), R(r_dyn, true), R(r_nowait, true), R(r_sections, true), R(r_names, true),
    R(r_thread, false), R(r_flag, false), R(r_shared, false), R(r_static, false), R(r_memcpy, false)};
const int kN = sizeof kCases / sizeof *kCases;

Plan gen(uint64_t seed) {
    Plan p; p.prop = "SELF"; p.seed = seed;
    sim::Rng r(seed);
    random_sched(p, r, 6);
    p.cfg("case").set("n", (long)(seed % kN));
    return p;
}
void exec(const Plan& p) {
    const Case& c = kCases[p.find("case")->i("n")];
    sim::phase("%s", c.name);
    int before = sim::race_count();
    long v = c.fn();
    int races = sim::race_count() - before;
#ifdef SIM_T
    if (c.race) {
        if (races == 0 && !(c.teams)) sim::violation("missed-race", "%s: not reported", c.name);
        if (races) sim::count("races reported"); else sim::count("no race: team too small");
        sim::race_clear();
        return;
    }
#endif
    if (!c.race && v != SUM) sim::violation("wrong-answer", "%s gave %ld, not %ld", c.name, v, SUM);
    sim::count(c.name);
    if (races) sim::violation("false-race", "%s: %s", c.name, sim::race_text());
}
Register reg({"SELF", gen, exec, false});
} // namespace
