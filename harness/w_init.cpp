// C22: initialisers fill exactly their tensor, from the documented distribution, whatever thread runs them.
// The random device is the seam: its seeds come from the run's seed, so every draw repeats.
#include "exec.hpp"
#include "proc.hpp"
#include "ser.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
#include <unordered_map>

static const char* kCls = "wrong-initialiser";
static Plan gen(uint64_t seed) {
    sim::Rng r(seed * 1000003 + 122);
    Plan p;
    p.prop = "C22";
    p.seed = seed;
    p.env = r.next() >> 8;
    random_sched(p, r, 4);
    int nt = r.chance(0.5) ? 1 : r.range(2, 4);
    p.cfg("threads").set("n", nt);
    int k = r.range(3, 12);
    bool same = r.chance(0.3);          // every thread does the same thing
    for (int i = 0; i < k; ++i) {
        static const char* what[] = {"zeros", "constant", "uniform", "uniform", "uniform", "xavier", "xavier", "xavier", "default", "shuffle"};
        std::string w = what[r.below(10)];
        Shp s;
        int d = r.range(1, 4);
        int lim = d == 1 ? 1500 : d == 2 ? 50 : d == 3 ? 12 : 7;
        if (r.chance(0.2)) lim = d == 1 ? 5 : 3;
        if (r.chance(0.006)) lim = d == 1 ? 80000 : d == 2 ? 270 : d == 3 ? 40 : 16;
        for (int j = 0; j < d; ++j) s.push_back(r.range(1, lim));
        double lo = 0, hi = 1;
        switch (r.below(6)) {
            case 0: lo = r.real(-10, 0); hi = r.real(0.1f, 10); break;
            case 1: lo = r.real(1, 1000); hi = lo * (1 + r.real(0.01f, 2)); break;
            case 2: hi = -r.real(1, 1000); lo = hi * (1 + r.real(0.01f, 2)); break;
            case 3: lo = hi = r.real(-5, 5); break;
            case 4: lo = -1e30; hi = 1e30; break;
            default: lo = -r.real(1e-6f, 1); hi = -lo; break;
        }
        int place = r.below(3);
        uint64_t salt = r.next() >> 8;
        for (int t = 0; t < nt; ++t)
            if (same || (int)(salt % nt) == t)
                p.op("do").set("th", t).set("what", w).set("shape", s).set("lo", lo).set("hi", hi).set("place", place).set("salt", salt);
    }
    return p;
}
namespace {
struct Ds : dw::IDataset {
    size_t size() override { return 9; }
    OutShape shape() override { return {dw::Shape{1}, dw::Shape{1}}; }
    void pull(int i, dw::Tensor& X, dw::Tensor& y) override { X.data()[0] = (float)i; y.data()[0] = (float)i; }
};
struct Drawn { int th; std::vector<double> u; };
}
constexpr size_t kGuard = 24;
static float odd(uint64_t salt) {
    static const float v[] = {0.f, -0.f, 1.f, -7.25f, 1e-42f, 3e38f, std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity(), std::nanf(""), 0.1f};
    return v[salt % 10];
}
// Returns normalised draws in *out.
static void one(const Line& ln, std::vector<Drawn>& out) {
    std::string w = ln.s("what");
    if (w == "shuffle") {
        dw::DataLoader dl(std::make_shared<Ds>(), 4, true);
        dw::Tensor X, y;
        dl.pull(X, y);
        return;
    }
    Shp s = ln.v("shape");
    size_t N = numel(s);
    if (!N || s.empty()) return;
    float lo = (float)ln.f("lo"), hi = (float)ln.f("hi"), c = odd(ln.u("salt"));
    dw::Shape sh(s);
    dw::Tensor t, view;
    std::vector<float> mem;
    long place = ln.i("place");
    if (w == "default") { lo = 0; hi = 1; }
    if (place == 0) {
        t = w == "zeros" ? dw::Tensor::zeros(sh) : w == "constant" ? dw::Tensor::constant(sh, c) : w == "xavier" ? dw::Tensor::xavierUniform(sh) : w == "default" ? dw::Tensor::uniform(sh) : dw::Tensor::uniform(sh, lo, hi);
    } else {
        if (place == 1) t = dw::Tensor(sh);
        else {
            mem.assign(N + 2 * kGuard, 77.5f);
            t = dw::Tensor(sh, mem.data() + kGuard);
        }
        for (size_t i = 0; i < N; ++i) t.data()[i] = 77.5f;
        const float* before = t.data();
        view = t;
        if (w == "zeros") dw::initializer::zeros(view);
        else if (w == "constant") dw::initializer::constant(view, c);
        else if (w == "xavier") dw::initializer::xavierUniform(view);
        else if (w == "default") dw::initializer::uniform(view);
        else dw::initializer::uniform(view, lo, hi);
        if (t.data() != before || view.data() != before) sim::violation(kCls, "%s moved the tensor's data", w.c_str());
        for (size_t i = 0; i < kGuard && !mem.empty(); ++i)
            if (mem[i] != 77.5f || mem[kGuard + N + i] != 77.5f) sim::violation(kCls, "%s of a view wrote outside it", w.c_str());
    }
    if (Shp(t.shape()) != s || t.total() != N) sim::violation(kCls, "%s changed the tensor's shape", w.c_str());
    const float* d = t.data();
    sim::count(("op " + w).c_str());
    if (w == "zeros" || w == "constant") {
        float want = w == "zeros" ? 0 : c;
        for (size_t i = 0; i < N; ++i)
            if (!(d[i] == want || (std::isnan(want) && std::isnan(d[i])))) sim::violation(kCls, "%s: element %zu of %zu is %.9g instead of %.9g", w.c_str(), i, N, d[i], want);
        return;
    }
    double a = lo, b = hi;
    if (w == "xavier") {
        double in = s.size() == 2 ? s[0] : (double)(N / s[0]), on = s.size() == 2 ? s[1] : s[0];
        b = std::sqrt(6 / (in + on));
        a = -b;
    }
    double tol = 1e-6 * std::max(std::fabs(a), std::fabs(b));
    for (size_t i = 0; i < N; ++i)
        if (!(d[i] >= a - tol && d[i] <= b + tol)) sim::violation(kCls, "%s over %s: element %zu is %.9g, outside [%.9g, %.9g]", w.c_str(), shape_text(sh).c_str(), i, d[i], a, b);
    if (b - a < 4e-3 * std::max(std::fabs(a), std::fabs(b))) return;       // too few floats inside for the statistics
    Drawn r{(int)ln.i("th"), {}};
    for (size_t i = 0; i < N; ++i) r.u.push_back(std::min(1.0, std::max(0.0, (d[i] - a) / (b - a))));
    out.push_back(std::move(r));
}
static double corr(const std::vector<double>& a, size_t ao, const std::vector<double>& b, size_t bo, size_t n) {
    double s = 0;
    for (size_t i = 0; i < n; ++i) s += (a[ao + i] - 0.5) * (b[bo + i] - 0.5);
    return s * 12 / std::sqrt((double)n);                                   // standard normal for independent draws
}
static void exec(const Plan& p) {
    int nt = (int)(p.find("threads") ? p.find("threads")->i("n", 1) : 1);
    std::vector<std::vector<Drawn>> got(nt);
    auto body = [&](int t) { for (auto& ln : p.lines) if (ln.verb == "do" && ln.i("th") == t) one(ln, got[t]); };
    if (nt == 1) body(0);
    else {
        std::vector<sim::ThreadRef> th;
        for (int t = 0; t < nt; ++t) th.push_back(sim::spawn([&, t] { body(t); }));
        for (auto& t : th) sim::join(t);
    }
    check_races();
    sim::phase("statistics");
    std::vector<std::vector<double>> stream(nt);
    std::vector<const Drawn*> all;
    double bins[16] = {}, n = 0;
    for (int t = 0; t < nt; ++t) for (auto& d : got[t]) {
        all.push_back(&d);
        sim::hash_bytes(d.u.data(), d.u.size() * 8);
        for (double u : d.u) { bins[std::min(15, (int)(u * 16))] += 1; n += 1; }
        stream[t].insert(stream[t].end(), d.u.begin(), d.u.end());
        // repeated values inside one tensor
        std::vector<double> s(d.u);
        std::sort(s.begin(), s.end());
        double same = 0;
        for (size_t i = 1; i < s.size(); ++i) same += s[i] == s[i - 1];
        // at least 2^15 different floats lie in the interval (see one())
        double expect = 0.5 * s.size() * s.size() / 32768.0;
        if (same > 4 * expect + 25) sim::violation(kCls, "%.0f of %zu draws of one tensor repeat another one", same, s.size());
    }
    // a run of eight draws that comes again, in any tensor of any thread, was not drawn
    std::unordered_map<uint64_t, size_t> runs;
    for (size_t k = 0; k < all.size(); ++k) {
        auto& u = all[k]->u;
        for (size_t i = 0; i + 8 <= u.size(); ++i) {
            uint64_t h = 1469598103934665603ull;
            for (int j = 0; j < 8; ++j) { uint64_t w; std::memcpy(&w, &u[i + j], 8); h = (h ^ w) * 1099511628211ull; h ^= h >> 29; }
            auto it = runs.find(h);
            if (it != runs.end()) sim::violation(kCls, "the eight draws from element %zu of tensor %zu came before, in tensor %zu", i, k, it->second);
            if (i % 8 == 0) runs.emplace(h, k);
        }
    }
    if (n >= 320) {
        double chi = 0;
        for (double b : bins) chi += (b - n / 16) * (b - n / 16) / (n / 16);
        if (chi > 120) sim::violation(kCls, "%.0f draws are not uniform over their interval (chi-square %.0f with 15 degrees of freedom)", n, chi);
        sim::count("distributions tested");
    }
    for (auto& s : stream) for (size_t lag = 1; lag <= 4; ++lag) if (s.size() >= 400 + lag) {
        double z = corr(s, 0, s, lag, s.size() - lag);
        if (std::fabs(z) > 9) sim::violation(kCls, "draws are correlated with those %zu before (z = %.1f)", lag, z);
    }
    auto pair = [&](const std::vector<double>& a, const std::vector<double>& b, const char* what) {
        size_t m = std::min(a.size(), b.size());
        if (m >= 8) {
            size_t eq = 0;
            for (size_t i = 0; i < m; ++i) eq += std::fabs(a[i] - b[i]) < 1e-5;
            if (eq * 2 > m + 8) sim::violation(kCls, "%s received the same draws (%zu of %zu)", what, eq, m);
        }
        if (m >= 400) {
            double z = corr(a, 0, b, 0, m);
            if (std::fabs(z) > 9) sim::violation(kCls, "%s received dependent draws (z = %.1f)", what, z);
            sim::count("pairs compared");
        }
    };
    for (size_t i = 0; i < all.size(); ++i) for (size_t j = i + 1; j < all.size(); ++j) pair(all[i]->u, all[j]->u, "two tensors");
    for (int i = 0; i < nt; ++i) for (int j = i + 1; j < nt; ++j) pair(stream[i], stream[j], "two threads");
    sim::count("histories");
}
static Register reg({"C22", gen, exec, false});
