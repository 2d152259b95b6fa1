// C08, C09: data loaders.
#include "loader.hpp"
#include <algorithm>
#include <cmath>
#include <set>

static Shp small_shape(sim::Rng& r) {
    Shp s;
    int d = r.range(1, 3);
    for (int i = 0; i < d; ++i) s.push_back(r.range(1, 4));
    return s;
}
static Plan gen(uint64_t seed, const char* prop, bool shuffle) {
    sim::Rng r(seed * 1000003 + (shuffle ? 109 : 108));
    Plan p;
    p.prop = prop;
    p.seed = seed;
    p.env = r.next() >> 8;
    int b = r.range(1, 7), n;
    switch (r.below(6)) {
        case 0: n = r.range(0, b); break;
        case 1: n = b * r.range(1, 5); break;
        case 2: n = b * r.range(1, 4) + 1; break;
        case 3: n = b * r.range(1, 4) - 1; break;
        default: n = r.range(1, 40);
    }
    if (r.chance(0.04)) { b = r.range(60, 1500); n = r.chance(0.6) ? b : b * 2 + r.range(-1, 1); }
    Shp xs = small_shape(r), ys = small_shape(r);
    bool large = b < 8 && r.chance(0.03);         // samples the size of real images
    if (large) xs = {r.range(1, 3), r.range(20, 110), r.range(20, 110)};
    p.cfg("set").set("n", n).set("batch", b).set("x", xs).set("y", ys).set("x2", small_shape(r)).set("y2", small_shape(r)).set("b3", r.range(1, 5)).set("given", r.chance(0.4) ? 1 : 0);
    int k = r.range(3, 30);
    for (int i = 0; i < k; ++i) {
        int c = r.below(14);
        if (c < 9) p.op("pull");
        else if (c == 9) p.op("epoch");
        else if (c == 10) p.fault("throw").set("at", (int)r.below((uint32_t)b)).set("len", r.chance(0.7) ? 1 : r.range(1, 5)).set("junk", r.chance(0.5) ? 1 : 0);
        else if (c == 11) p.fault("badshape").set("which", (int)r.below(6));
        else if (c == 12) p.op("fresh");
        else p.op("other").set("k", (int)r.below(3));
    }
    if (shuffle && !large && r.chance(0.25)) p.op("many").set("epochs", r.range(20, 120) / (b > 50 ? 20 : 1));
    p.op("epoch");
    return p;
}
static void exec(const Plan& p, bool shuffle) {
    const Line* c = p.find("set");
    const char* cls = "wrong-batch";
    int n = (int)c->i("n"), B = (int)c->i("batch", 1);
    auto ds = std::make_shared<SimDataset>(n, c->v("x"), c->v("y"));
    dw::DataLoader dl(ds, B, shuffle);
    dw::DataLoader other(std::make_shared<SimDataset>(50, Shp{2}, Shp{1}), 3, shuffle);
    // other loaders: of another dataset, of another dataset with the same batch size, and of the same dataset
    int B3 = (int)c->i("b3", 2), pos3 = 0;
    auto ds2 = std::make_shared<SimDataset>(n + 3, c->has("x2") ? c->v("x2") : Shp{3}, c->has("y2") ? c->v("y2") : Shp{1});
    dw::DataLoader other2(ds2, B, !shuffle);
    dw::DataLoader other3(ds, B3, false);
    Shp xs{B}, ys{B};
    for (int d : ds->xs) xs.push_back(d);
    for (int d : ds->ys) ys.push_back(d);
    dw::Tensor X, Y;
    if (c->i("given")) { X = make_tensor(xs, 1); Y = make_tensor(ys, 2); }
    int pos = 0;                                  // reference: position in the epoch
    std::vector<double> freq(n, 0);
    double delivered = 0;
    auto pull = [&]() -> int {                    // 1 batch, 0 end of epoch, -1 failed
        ds->log.clear();
        bool more = false;
        try {
            more = dl.pull(X, Y);
        } catch (const std::exception& e) {
            if (!ds->bad.empty()) sim::violation(cls, "%s", ds->bad.c_str());
            return -1;
        }
        if (!ds->bad.empty()) sim::violation(cls, "%s", ds->bad.c_str());
        if (pos + B > n) {
            if (more) sim::violation(cls, "a batch was delivered although only %d samples of %d remain in the epoch (batch size %d)", n - pos, n, B);
            pos = 0;
            sim::count("epochs");
            return 0;
        }
        if (!more) sim::violation(cls, "end of epoch reported at sample %d of %d (batch size %d)", pos, n, B);
        if (Shp(X.shape()) != xs || Shp(Y.shape()) != ys) sim::violation(cls, "delivered tensors have the wrong shape");
        auto got = ds->decode(X, Y, B, cls);
        for (int i : got) { sim::hash_u64(i); freq[i]++; }
        delivered += B;
        if (!shuffle) {
            for (int i = 0; i < B; ++i) if (got[i] != pos + i) sim::violation(cls, "row %d of the batch at position %d holds sample %d", i, pos, got[i]);
        } else {
            std::set<int> u(got.begin(), got.end());
            if ((int)u.size() != B) sim::violation(cls, "a batch of %d holds only %zu distinct samples", B, u.size());
        }
        pos += B;
        sim::count("batches");
        return 1;
    };
    auto must = [&]() {
        int r = pull();
        if (r < 0) sim::violation(cls, "pull failed although the dataset did not");
        return r;
    };
    for (auto& ln : p.lines) {
        sim::phase("%s", ln.verb.c_str());
        if (ln.verb == "pull") must();
        if (ln.verb == "epoch") {
            int lim = n / B + 3;
            while (must() == 1) if (--lim < 0) sim::violation(cls, "the epoch does not end");
        }
        if (ln.verb == "many") {
            for (long e = 0; e < ln.i("epochs"); ++e) { int lim = n / B + 3; while (must() == 1) if (--lim < 0) sim::violation(cls, "the epoch does not end"); }
        }
        if (ln.verb == "throw") {
            ds->fail_at = ds->pulls + ln.i("at") % B;
            ds->fail_len = std::max(1L, ln.i("len", 1));
            ds->junk = ln.i("junk") != 0;
            int tries = 0;
            while (ds->pulls < ds->fail_at + ds->fail_len && tries++ < 12) {
                long before = ds->pulls;
                int r = pull();
                if (r == 0) break;                  // end of epoch: the dataset was not asked
                if (r == 1 && before <= ds->fail_at && ds->pulls > ds->fail_at) sim::violation(cls, "the dataset threw but pull delivered a batch");
                if (r == 1) break;
            }
            ds->fail_at = -1;
            // nothing was counted: the same batch comes next
            must();
        }
        if (ln.verb == "badshape") {
            dw::Tensor x(xs), y(ys);
            int w = (int)ln.i("which");
            Shp bx = xs, by = ys;
            if (w == 0) bx[0]++;
            if (w == 1) by[0]++;
            if (w == 2) bx.push_back(2);
            // as many elements, another shape
            if (w == 3) bx.push_back(1);
            if (w == 4) { int t = 1; for (int d : bx) t *= d; bx = {t}; by.insert(by.begin(), 1); }
            if (w == 5) { std::reverse(by.begin(), by.end()); std::rotate(bx.begin(), bx.begin() + 1, bx.end()); if (bx == xs && by == ys) bx.push_back(1); }
            dw::Tensor sx = X, sy = Y;
            X = dw::Tensor(dw::Shape(bx));
            Y = dw::Tensor(dw::Shape(by));
            bool threw = false;
            try { dl.pull(X, Y); } catch (const std::exception&) { threw = true; }
            if (!threw) sim::violation(cls, "a pull into tensors of the wrong shape was accepted");
            X = sx;
            Y = sy;
            sim::count("fault: wrong target shape");
            must();
        }
        if (ln.verb == "fresh") { X = dw::Tensor(); Y = dw::Tensor(); }
        if (ln.verb == "other") {
            dw::Tensor a, b;
            if (ln.i("k") == 0) other.pull(a, b);
            if (ln.i("k") == 1 && other2.pull(a, b)) {
                if (!ds2->bad.empty()) sim::violation(cls, "%s", ds2->bad.c_str());
                if (a.shape()[0] != B || a.total() != (size_t)B * numel(ds2->xs) || b.total() != (size_t)B * numel(ds2->ys)) sim::violation(cls, "another loader delivered tensors of the wrong shape");
                ds2->decode(a, b, B, cls);
            }
            if (ln.i("k") == 2) {
                bool more = other3.pull(a, b), want = pos3 + B3 <= n;
                if (more != want) sim::violation(cls, "a second loader of the dataset, at sample %d of %d with batch size %d, %s", pos3, n, B3, more ? "delivered a batch" : "reported the end");
                if (more) {
                    auto got = ds->decode(a, b, B3, cls);
                    for (int i = 0; i < B3; ++i) if (got[i] != pos3 + i) sim::violation(cls, "row %d of a second loader's batch at position %d holds sample %d", i, pos3, got[i]);
                }
                pos3 = more ? pos3 + B3 : 0;
            }
            sim::count("pulls of other loaders");
        }
    }
    if (shuffle && n > 1 && delivered > 0 && B <= n) {
        double q = delivered / n, sd = std::sqrt(q * (1 - (double)B / n) + 1e-9);
        for (int i = 0; i < n; ++i)
            if (std::fabs(freq[i] - q) > 8 * sd + 10) sim::violation("biased-shuffle", "sample %d of %d was delivered %.0f times, the average is %.1f", i, n, freq[i], q);
        if (q > 40) {
            sim::count("uniformity checks");
            if (B < n) {
                double chi = 0;
                for (int i = 0; i < n; ++i) chi += (freq[i] - q) * (freq[i] - q) / (q * (1 - (double)B / n));
                double d = n - 1;
                if (chi > d + 12 * std::sqrt(2 * d) + 40) sim::violation("biased-shuffle", "delivery counts are not uniform: chi-square %.1f with %d degrees of freedom", chi, n - 1);
            }
        }
    }
    sim::count("histories");
}
static Register r8({"C08", [](uint64_t s) { return gen(s, "C08", false); }, [](const Plan& p) { exec(p, false); }, false});
static Register r9({"C09", [](uint64_t s) { return gen(s, "C09", true); }, [](const Plan& p) { exec(p, true); }, false});
