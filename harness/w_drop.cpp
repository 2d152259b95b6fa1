// C14: dropout's forward and backward agree.
// Each dropout layer is bracketed by an identity Linear layer whose bias gradient is not enough to see
// elements, so the layer is driven directly, and through models Dropout -> Linear(identity-like).
#include "exec.hpp"
#include "proc.hpp"
#include <cmath>
#include <cstring>
#include <unordered_map>
#ifndef NO_DIRECT
#include "runtime/cpu/layers/cpulayer.hpp"
#endif

static Plan gen(uint64_t seed) {
    sim::Rng r(seed * 1000003 + 114);
    Plan p;
    p.prop = "C14";
    p.seed = seed;
    p.env = r.next() >> 8;
    random_sched(p, r, 4);
    p.cfg("variant").set("direct", r.chance(0.5) ? 1 : 0);
    int nl = r.range(1, 3);
    for (int i = 0; i < nl; ++i) {
        Shp s;
        if (r.chance(0.5)) s = {r.range(1, 6), r.range(1, 40)};
        else s = {r.range(1, 5), r.range(1, 4), r.range(1, 7), r.range(1, 7)};
        if (r.chance(0.2)) s = {r.range(20, 40), r.range(20, 60)};
        if (r.chance(0.03)) s = {r.range(40, 80), r.range(60, 120)};
        if (r.chance(0.006)) s = {r.range(1, 260), r.range(100, 300)};
        double pr = r.chance(0.08) ? 0 : r.chance(0.1) ? 0.95 : r.chance(0.3) ? 0.5 : r.chance(0.1) ? (double)r.real(0.0005f, 0.02f) : (double)r.real(0.02f, 0.9f);
        p.op("drop").set("id", i).set("shape", s).set("p", pr);
    }
    int k = r.range(2, 14);
    for (int i = 0; i < k; ++i) {
        int c = r.below(16);
        int id = (int)r.below((uint32_t)nl);
        uint64_t salt = r.next() >> 8;
        if (c < 7) p.op("forward").set("id", id).set("salt", salt);
        else if (c < 11) p.op("backward").set("id", id).set("salt", salt);
        else if (c < 13) p.op("mode").set("id", id).set("on", r.chance(0.5) ? 1 : 0);
        else if (c == 13) p.op("save").set("id", id);
        else if (c == 14) p.op("noise").set("n", r.range(1, 50));
        else p.op("shuffle").set("salt", salt);
    }
    int id = (int)r.below((uint32_t)nl);
    p.op("forward").set("id", id).set("salt", r.next() >> 8);
    p.op("backward").set("id", id).set("salt", r.next() >> 8);
    return p;
}
struct Ds : dw::IDataset {
    size_t size() override { return 20; }
    OutShape shape() override { return {dw::Shape{1}, dw::Shape{1}}; }
    void pull(int i, dw::Tensor& X, dw::Tensor& y) override { X.data()[0] = (float)i; y.data()[0] = (float)i; }
};
// One dropout layer behind one of two interfaces.
struct D {
    Shp s;
    double p;
    bool direct, train = true, have = false;
    std::vector<char> kept;      // of the latest forward
    bool kept_valid = false;
#ifndef NO_DIRECT
    dw::LayerInfo info;
    std::shared_ptr<dw::cpu::ICPULayer> l;
#endif
    std::unique_ptr<dw::Model> m;
    std::vector<dw::Tensor> x, y;
    double drawn = 0, dropped = 0, var = 0;
    std::vector<char> prev;
    double same = 0, same_mu = 0, same_var = 0;
    static constexpr int kLags = 128;
    std::unordered_map<uint64_t, std::pair<int, size_t>> blocks;   // hashes of runs of decisions: a run that comes again was not drawn
    int passes = 0;
    void repeats() {
        ++passes;
        double q = p * p + (1 - p) * (1 - p);
        size_t N = kept.size(), L = q < 1 ? (size_t)std::min(1e9, std::ceil(90 / -std::log2(q))) : (size_t)-1;
        if (N < L) return;
        const uint64_t b = 0x9e3779b97f4a7c15ull | 1;
        uint64_t h = 0, top = 1;
        for (size_t i = 0; i < L; ++i) top *= b;
        size_t good = 0;
        for (size_t i = 0; i < N; ++i) {
            h = h * b + (kept[i] + 1);
            if (i >= L) h -= top * (kept[i - L] + 1);
            good = kept[i] < 2 ? good + 1 : 0;
            if (good < L) continue;
            auto it = blocks.find(h);
            if (it != blocks.end())
                sim::violation("wrong-dropout", "the %zu decisions of pass %d up to element %zu are those of pass %d up to element %zu", L, passes, i, it->second.first, it->second.second);
            if ((i + 1) % L == 0) blocks[h] = {passes, i};
        }
        sim::count("passes searched for repeated decisions");
    }
    double lag[kLags + 1] = {}, lag_n[kLags + 1] = {};       // products of centred decisions of one pass
    D(const Line& ln, bool dir, int id) : s(ln.v("shape")), p((float)ln.f("p", 0.5)), direct(dir) {
        std::string nm = "drop" + std::to_string(id);
        dw::Placeholder ph{dw::Shape(s)};
#ifndef NO_DIRECT
        if (direct) {
            dw::Dropout op((float)p, nm);
            op(ph);
            info = op.m_info;
            l = dw::cpu::ICPULayer::create(info);
        }
#else
        direct = false;
#endif
        if (!direct) {
            // input -> [per-element scale, so that gradients are visible] -> dropout
            // A BatchNorm-free way to see the gradient of every element: Linear with one input feature.
            // Model: in [B,1] -> Linear(F) -> Dropout.  dL/dbias_f = sum_b g[b,f]; with B=1 it is per element.
            s = {1, (int)numel(s)};
            dw::Placeholder in{dw::Shape{1, 1}};
            auto out = dw::Dropout((float)p, nm)(dw::Linear(s[1], "lin")(in));
            m.reset(new dw::Model(in, out));
            m->compile();
        }
    }
    void set(bool on) {
        train = on;
#ifndef NO_DIRECT
        if (direct) { for (auto& kv : info.impl().params) kv.second.train(on); return; }
#endif
        m->train(on);
    }
};
static void exec(const Plan& p) {
    const Line* v = p.find("variant");
    bool direct = v && v->i("direct");
    std::map<int, std::unique_ptr<D>> ds;
    for (auto& ln : p.lines) if (ln.verb == "drop") ds[(int)ln.i("id")].reset(new D(ln, direct, (int)ln.i("id")));
    std::vector<char> last; double last_p = -1; const D* last_d = nullptr;      // the latest mask drawn by any layer
    double cs = 0, cmu = 0, cvar = 0;
    int no = 0;
    for (auto& ln : p.lines) {
        if (ln.kind != "op" || ln.verb == "drop") continue;
        ++no;
        sim::phase("%s (%d)", ln.verb.c_str(), no);
        if (ln.verb == "noise") { dw::Tensor::uniform({(int)ln.i("n", 1)}); continue; }
        if (ln.verb == "shuffle") {
            dw::DataLoader dl(std::make_shared<Ds>(), 5, true);
            dw::Tensor X, y;
            dl.pull(X, y);
            continue;
        }
        auto it = ds.find((int)ln.i("id"));
        if (it == ds.end()) continue;
        D& d = *it->second;
        size_t N = numel(d.s);
        if (ln.verb == "mode") d.set(ln.i("on") != 0);
        if (ln.verb == "save" && !d.direct) dw::save_state(d.m->state(), std::string(scratch_dir()) + "/s");
        if (ln.verb == "forward") {
            std::vector<float> xin(N);
            d.y.assign(1, make_tensor(d.s, 3));
            if (d.direct) {
#ifndef NO_DIRECT
                d.x.assign(1, make_tensor(d.s, ln.u("salt")));
                xin.assign(d.x[0].data(), d.x[0].data() + N);
                d.l->forward(d.x, d.y);
#endif
            } else {
                d.x.assign(1, make_tensor({1, 1}, ln.u("salt")));
                fill(d.m->params().at("lin.weight").data().data(), N, ln.u("salt") + 1);
                fill(d.m->params().at("lin.bias").data().data(), N, ln.u("salt") + 2, 4);
                for (size_t i = 0; i < N; ++i) xin[i] = d.x[0].data()[0] * d.m->params().at("lin.weight").data().data()[i] + d.m->params().at("lin.bias").data().data()[i];
                for (float& f : xin) if (std::fabs(f) < 1e-3f) f = 0;
                d.m->forward(d.x, d.y);
            }
            d.have = true;
            d.prev = d.kept;
            bool was = d.kept_valid;
            d.kept.assign(N, 1);
            d.kept_valid = d.train;
            sim::hash_bytes(d.y[0].data(), N * 4);
            size_t dropped = 0;
            for (size_t i = 0; i < N; ++i) {
                float y = d.y[0].data()[i];
                double want = d.train ? xin[i] / (1 - d.p) : xin[i];
                if (xin[i] == 0) { if (std::fabs(y) > 0.05 / (1 - d.p)) sim::violation("wrong-dropout", "element %zu: %.9g from about 0", i, y); d.kept[i] = 2; continue; }
                bool zero = y == 0, full = std::fabs(y - want) <= 1e-5 * std::fabs(want) + (d.direct ? 0 : 1e-5 / (1 - d.p));
                if (!d.train && !full) sim::violation("wrong-dropout", "evaluation mode: element %zu is %.9g instead of %.9g", i, y, xin[i]);
                if (!zero && !full) sim::violation("wrong-dropout", "element %zu of the output is %.9g, neither 0 nor %.9g/(1-%.6g)", i, y, xin[i], d.p);
                if (d.train) { d.kept[i] = !zero; dropped += zero; }
            }
            if (d.train) {
                if (last_d && last_d != &d && d.p > 0 && last_p > 0) {
                    double q = d.p * last_p + (1 - d.p) * (1 - last_p);
                    for (size_t i = 0; i < N && i < last.size(); ++i) if (last[i] < 2 && d.kept[i] < 2) { cs += last[i] == d.kept[i]; cmu += q; cvar += q * (1 - q); }
                }
                last = d.kept;
                last_p = d.p;
                last_d = &d;
                if (d.p > 0.2 && d.p < 0.8)
                    for (int L = 1; L <= D::kLags && (size_t)L < N; ++L)
                        for (size_t i = 0; i + L < N; ++i)
                            if (d.kept[i] < 2 && d.kept[i + L] < 2) { d.lag[L] += ((d.kept[i] ? 0 : 1) - d.p) * ((d.kept[i + L] ? 0 : 1) - d.p); d.lag_n[L]++; }
                d.repeats();
                d.drawn += N;
                d.dropped += dropped;
                d.var += N * d.p * (1 - d.p);
                if (d.p == 0 && dropped) sim::violation("wrong-dropout", "p = 0 dropped %zu elements", dropped);
                if (was && d.prev.size() == N && d.p > 0) {
                    double q = d.p * d.p + (1 - d.p) * (1 - d.p);
                    for (size_t i = 0; i < N; ++i) if (d.prev[i] < 2 && d.kept[i] < 2) { d.same += d.prev[i] == d.kept[i]; d.same_mu += q; d.same_var += q * (1 - q); }
                }
            }
            sim::count(d.train ? "training forwards" : "evaluation forwards");
        }
        if (ln.verb == "backward" && d.have) {
            std::vector<dw::Tensor> go{make_tensor(d.s, ln.u("salt"))};
            std::vector<float> got(N), pre(N, 0);
            if (d.direct) {
#ifndef NO_DIRECT
                std::vector<dw::Tensor> gi{make_tensor(d.s, ln.u("salt") + 7)};
                pre.assign(gi[0].data(), gi[0].data() + N);
                d.l->updateGradients(d.x, go);
                d.l->backward(d.x, d.y, go, gi);
                got.assign(gi[0].data(), gi[0].data() + N);
#endif
            } else {
                d.m->backward(d.x, d.y, go);
                auto& g = d.m->params().at("lin.bias").grad();
                got.assign(g.data(), g.data() + N);
            }
            sim::hash_bytes(got.data(), N * 4);
            for (size_t i = 0; i < N; ++i) {
                if (d.kept[i] == 2) continue;
                double k = !d.kept_valid ? 1 : d.kept[i] ? 1 / (1 - d.p) : 0, want = pre[i] + k * go[0].data()[i];
                if (!(std::fabs(got[i] - want) <= 1e-5 * (std::fabs(want) + std::fabs(pre[i]) + std::fabs(k * go[0].data()[i]))))
                    sim::violation("wrong-dropout", "gradient of element %zu (%s by the latest forward) is %.9g instead of %.9g", i, !d.kept_valid ? "passed in evaluation mode" : d.kept[i] ? "kept" : "dropped", got[i] - pre[i], want - pre[i]);
            }
            sim::count("backward passes");
        }
        check_races();
    }
    for (auto& kv : ds) {
        D& d = *kv.second;
        if (d.var > 0) {
            double z = (d.dropped - d.drawn * d.p) / std::sqrt(d.var + 1);
            // exact binomial tails are wider than normal for tiny variances: demand a margin as well
            if (std::fabs(z) > 7 && std::fabs(d.dropped - d.drawn * d.p) > 12) sim::violation("wrong-dropout", "%.0f of %.0f elements dropped with p = %.6g", d.dropped, d.drawn, d.p);
            for (int L = 1; L <= D::kLags; ++L)
                if (d.lag_n[L] >= 1000) {
                    double sd = std::sqrt(d.lag_n[L]) * d.p * (1 - d.p);
                    if (std::fabs(d.lag[L]) > 8.5 * sd) sim::violation("wrong-dropout", "decisions %d elements apart in one pass are dependent: correlation %.3f over %.0f pairs", L, d.lag[L] / d.lag_n[L] / (d.p * (1 - d.p)), d.lag_n[L]);
                    sim::count("lag correlations checked");
                }
            if (d.same_var > 0) {
                double zs = (d.same - d.same_mu) / std::sqrt(d.same_var + 1);
                if (std::fabs(zs) > 7 && std::fabs(d.same - d.same_mu) > 12) sim::violation("wrong-dropout", "masks of successive passes are dependent: %.0f equal elements, %.1f expected", d.same, d.same_mu);
            }
        }
    }
    if (cvar > 0 && std::fabs(cs - cmu) / std::sqrt(cvar + 1) > 7 && std::fabs(cs - cmu) > 12)
        sim::violation("wrong-dropout", "masks of different layers are dependent: %.0f equal elements, %.1f expected", cs, cmu);
    sim::count("histories");
}
static Register reg({"C14", gen, exec, false});
