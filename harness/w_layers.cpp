// C01: every layer pass equals the sequential computation under every worker schedule.
#include "exec.hpp"
#include <cmath>
#include <cstring>
#ifndef NO_DIRECT
#include "runtime/cpu/layers/cpulayer.hpp"
#endif

static const char* kTypes[] = {"Convolution", "Convolution", "Convolution", "MaxPooling", "Add", "Linear", "Linear", "BatchNorm1D", "BatchNorm2D",
                               "Softmax", "ReLU", "LeakyReLU", "ELU", "Sigmoid", "GlobalAvgPooling"};
static bool is4d(const std::string& t, sim::Rng& r) {
    if (t == "Convolution" || t == "MaxPooling" || t == "BatchNorm2D" || t == "GlobalAvgPooling") return true;
    if (t == "BatchNorm1D" || t == "Softmax") return false;
    return r.chance(0.4);
}
void layer_plan(Plan& p, sim::Rng& r, bool oom) {
    std::string t = kTypes[r.below(sizeof kTypes / sizeof *kTypes)];
    bool four = is4d(t, r);
    int big = r.chance(0.12);
    Shp s;
    if (four) s = {r.range(1, 8), r.range(1, 4), r.range(1, big ? 18 : 8), r.range(1, big ? 18 : 8)};
    else s = {r.range(1, big ? 40 : 8), r.range(1, big ? 60 : 12)};
    bool huge = t == "Linear" && !four && r.chance(0.15);
    if (huge) s = {r.range(48, 96), r.range(64, 128)};
    // rarely the sizes of real networks
    bool large = !huge && r.chance(0.02);
    if (large) {
        if (!four) s = {r.range(1, 200), r.range(1, t == "Linear" ? 300 : 400)};
        else if (t == "Convolution") s = {r.range(1, 12), r.range(1, 40), r.range(7, 20), r.range(7, 20)};
        else s = {r.range(1, 30), r.range(1, 40), r.range(5, 40), r.range(5, 40)};
        while (numel(s) > 70000) s[0] = s[0] / 2;
    }
    LSpec l = gen_layer(r, t, s, big);
    if (large) {
        if (t == "Linear") l.units = std::max(1, std::min(r.range(1, 300), (int)(600000 / numel(s))));
        if (t == "Convolution") {
            if (r.chance(0.3)) for (int d = 0; d < 2; ++d) { l.k[d] = r.range(1, 7); l.pad[d] = r.range(0, 3); }
            while (numel(s) * l.k[0] * l.k[1] > 100000 && s[0] > 1) s[0] /= 2;
            l.units = std::max(1, std::min(r.range(1, 40), (int)(1500000 / (numel(s) * l.k[0] * l.k[1]))));
        }
    }
    if (huge) l.units = r.range(48, 96);
    l.name = "L";
    p.cfg("variant").set("v", std::string("direct")).set("fill", r.next() >> 8);
    p.cfg("input").set("id", 0).set("shape", s);
    Line& ln = p.op("layer").set("id", 1);
    layer_to_line(l, ln);
    int k = r.range(1, huge || large ? 2 : 5);
    bool wide = t == "Softmax" || t == "Sigmoid" || t == "ELU";
    bool vary_hw = four && t != "Linear" && r.chance(0.5), vary_b = r.chance(0.7);
    static const double scales[] = {1, 1, 1, 0.01, 8, 40, 200, 3000};
    for (int i = 0; i < k; ++i) {
        Shp q = s;
        if (i && vary_b) q[0] = r.range(1, big ? 20 : 8);
        if (i && vary_hw)
            for (int d = 2; d < 4; ++d) {
                q[d] = r.range(1, big ? 16 : 8);
                int pad = (int)(t == "Convolution" || t == "MaxPooling" ? l.pad[d - 2] : 0);
                if (q[d] + 2 * pad < l.k[d - 2]) q[d] = s[d];
            }
        p.op("pass").set("shape", q).set("salt", r.next() >> 8).set("bwd", r.chance(0.8) ? 1 : 0).set("train", r.chance(0.75) ? 1 : 0)
            .set("scale", wide ? scales[r.below(8)] : scales[r.below(6)]).set("sign", r.chance(0.2) ? (r.chance(0.7) ? -1 : 1) : 0).set("fresh", r.chance(0.3) ? 1 : 0);
        if (t == "Softmax" && r.chance(0.3)) p.lines.back().set("rows", r.chance(0.5) ? 20.0 : 150.0);      // rows of very different size
        if (oom && r.chance(0.6)) p.lines.back().set("foom", (int)r.below(r.chance(0.5) ? 6 : 30)).set("all", r.chance(0.3) ? 1 : 0);
        if (oom && r.chance(0.4)) p.lines.back().set("boom", (int)r.below(r.chance(0.5) ? 6 : 30));
    }
}

static Plan gen(uint64_t seed) {
    sim::Rng r(seed * 1000003 + 101);
    Plan p;
    p.prop = "C01";
    p.seed = seed;
    p.env = r.next() >> 8;
    random_sched(p, r, 8);
    if (r.chance(0.25)) {
        NetOpts o;
        o.big = r.chance(0.2);
        o.max_layers = 5;
        o.p4d = 0.8;
        Net n = gen_net(r, o);
        p.cfg("variant").set("v", std::string("model")).set("fill", r.next() >> 8);
        net_to_plan(n, p);
        int k = r.range(1, 3);
        for (int i = 0; i < k; ++i) p.op("pass").set("salt", r.next() >> 8).set("bwd", r.chance(0.8) ? 1 : 0).set("train", r.chance(0.8) ? 1 : 0).set("scale", 1.0);
        return p;
    }
    layer_plan(p, r, false);
    return p;
}

#ifndef NO_DIRECT
template <class Op> static dw::LayerInfo info_of(Op op, const Shp& s) {
    dw::Placeholder ph{dw::Shape(s)};
    if constexpr (Op::num_in == 2) op(ph, ph); else op(ph);
    return op.m_info;
}
static dw::LayerInfo make_info(const LSpec& l, const Shp& s) {
    std::array<int, 2> k{l.k[0], l.k[1]}, p{l.pad[0], l.pad[1]}, st{l.st[0], l.st[1]};
    const std::string& t = l.type;
    if (t == "Linear") return info_of(dw::Linear(l.units, "L"), s);
    if (t == "ReLU") return info_of(dw::ReLU("L"), s);
    if (t == "LeakyReLU") return info_of(dw::LeakyReLU(l.alpha, "L"), s);
    if (t == "ELU") return info_of(dw::ELU(l.alpha, "L"), s);
    if (t == "Sigmoid") return info_of(dw::Sigmoid("L"), s);
    if (t == "Softmax") return info_of(dw::Softmax("L"), s);
    if (t == "BatchNorm1D") return info_of(dw::BatchNorm1D(l.eps, l.alpha, "L"), s);
    if (t == "BatchNorm2D") return info_of(dw::BatchNorm2D(l.eps, l.alpha, "L"), s);
    if (t == "Convolution") return info_of(dw::Convolution(l.units, k, p, st, "L"), s);
    if (t == "MaxPooling") return info_of(dw::MaxPooling(k, p, st, "L"), s);
    if (t == "GlobalAvgPooling") return info_of(dw::GlobalAvgPooling("L"), s);
    return info_of(dw::Add("L"), s);
}
// One attempt of a pass with an allocation failing; true when it threw (the caller then repeats it).
template <class F> static bool starved(const Line& ln, const char* at, const char* what, F f) {
    if (!ln.has(at)) return false;
    bool threw = false;
    sim::alloc_arm({ln.i(at), ln.i("all") != 0});
    try { f(); } catch (const std::exception&) { threw = true; }
    sim::alloc_disarm();
    if (!threw && sim::alloc_failures()) sim::count("allocation failures tolerated");
    if (threw && !sim::alloc_failures()) sim::violation("bad-after-oom", "%s threw although no allocation failed", what);
    if (threw) sim::count("passes hit by an allocation failure");
    return threw;
}
void layer_direct(const Plan& p) {
    const Line *lay = p.find("layer"), *inp = p.find("input");
    if (!lay || !inp) return;
    LSpec l = layer_from_line(*lay);
    l.name = "L";
    Shp base = inp->v("shape");
    dw::LayerInfo info = make_info(l, base);
    const char* cls = p.prop == "C10" ? "bad-after-oom" : "wrong-result";
    uint64_t fs = p.find("variant")->u("fill");
    for (auto& kv : info.impl().params) fill(kv.second.data().data(), kv.second.data().total(), fs ^ name_hash(kv.first), 0.7f);
    for (auto& kv : info.impl().buffers) {
        fill(kv.second.data(), kv.second.total(), fs ^ name_hash(kv.first), 0.7f);
        if (kv.first == "running_var") for (size_t i = 0; i < kv.second.total(); ++i) kv.second.data()[i] = 0.2f + std::fabs(kv.second.data()[i]);
    }
    auto layer = dw::cpu::ICPULayer::create(info);
    int no = 0;
    for (auto& ln : p.lines) {
        if (ln.verb != "pass") continue;
        ++no;
        Shp s = ln.v("shape"), so;
        if (!out_shape(l, s, s, so)) continue;
        sim::phase("%s pass %d", l.type.c_str(), no);
        bool train = ln.i("train") != 0, bwd = ln.i("bwd") != 0;
        float scale = (float)ln.f("scale", 1);
        uint64_t salt = ln.u("salt");
        for (auto& kv : info.impl().params) kv.second.train(train);
        RLayer ref;
        ref.sp = l;
        ref.in_s = s;
        ref.train = train;
        for (auto& kv : info.impl().params) ref.par[kv.first] = to_d(kv.second.data());
        int ni = arity(l);
        std::vector<dw::Tensor> x, y{make_tensor(so, 5)}, go{make_tensor(so, salt + 5, ln.i("fresh") ? 1.f : scale)}, gi;
        for (int i = 0; i < ni; ++i) {
            x.push_back(make_tensor(s, salt + i, scale));
            if (double by = ln.f("rows", 0)) {
                sim::Rng r(salt + 31);
                for (int a = 0; a < s[0]; ++a) { float c = r.real(-(float)by, (float)by); for (int b = 0; b < s[1]; ++b) x[i].data()[(size_t)a * s[1] + b] += c; }
            }
            int sg = (int)ln.i("sign");
            if (sg) for (size_t j = 0; j < x[i].total(); ++j) x[i].data()[j] = sg * std::fabs(x[i].data()[j]);
            gi.push_back(make_tensor(s, salt + 77 + i, 0.5f));
            if (ln.i("fresh")) for (size_t j = 0; j < gi[i].total(); ++j) gi[i].data()[j] = 0;
        }
        std::vector<DVec> dx, dgi;
        for (auto& t : x) dx.push_back(to_d(t));
        for (auto& t : gi) dgi.push_back(to_d(t));
        DVec dgo = to_d(go[0]);
        auto par0 = ref.par;
        starved(ln, "foom", "forward", [&] { layer->forward(x, y); });
        // a failed pass may have updated the running statistics; everything else must come out right
        for (auto& kv : info.impl().buffers) ref.buf[kv.first] = to_d(kv.second);
        layer->forward(x, y);
        DVec dy_impl = to_d(y[0]);
        if (bwd) {
            if (starved(ln, "boom", "backward", [&] { layer->updateGradients(x, go); layer->backward(x, y, go, gi); }) || ln.has("boom"))
                for (int i = 0; i < ni; ++i) for (size_t j = 0; j < gi[i].total(); ++j) gi[i].data()[j] = (float)dgi[i][j];
            layer->updateGradients(x, go);
            layer->backward(x, y, go, gi);
        }
        double in_noise = 0;
        auto f = [&](Noise& nz) {
            RLayer r = ref;
            DVec out;
            r.fwd(dx[0], dx[ni - 1], out, nz);
            Named o{{"output", out}};
            for (auto& b : r.buf) o.push_back({b.first, b.second});
            if (bwd) {
                std::vector<DVec> g = dgi;
                DMap pg;
                r.bwd(dx[0], out, dgo, &g[0], ni == 2 ? &g[1] : nullptr, pg, nz);
                for (int i = 0; i < ni; ++i) o.push_back({"gradient of input " + std::to_string(i), g[i]});
                for (auto& q : pg) o.push_back({"gradient of " + q.first, q.second});
            }
            return o;
        };
        ObsSet obs = with_tolerance(f, salt);
        std::string what = l.type + " pass " + std::to_string(no);
        expect(cls, obs, "output", y[0], what);
        for (auto& kv : info.impl().buffers) expect(cls, obs, kv.first, kv.second, what);
        if (bwd) {
            RLayer r = ref;
            Noise off;
            DVec out;
            r.fwd(dx[0], dx[ni - 1], out, off);
            if (near_kink(r, dx[0], in_noise)) sim::count("gradients undecided (kink)");
            else {
                for (int i = 0; i < ni; ++i) expect(cls, obs, "gradient of input " + std::to_string(i), gi[i], what);
                sim::count("checked backward passes");
            }
            for (auto& kv : info.impl().params) expect(cls, obs, "gradient of " + kv.first, kv.second.grad(), what);
            if (to_d(y[0]) != dy_impl) sim::violation(cls, "%s: backward changed the output", what.c_str());
        }
        for (int i = 0; i < ni; ++i) if (to_d(x[i]) != dx[i]) sim::violation(cls, "%s changed its input", what.c_str());
        if (to_d(go[0]) != dgo) sim::violation(cls, "%s changed the gradient it was given", what.c_str());
        for (auto& kv : info.impl().params) if (to_d(kv.second.data()) != par0[kv.first]) sim::violation(cls, "%s changed parameter %s", what.c_str(), kv.first.c_str());
        sim::count("checked forward passes");
        check_races();
    }
    sim::count(("layer " + l.type).c_str());
}
#endif

static void model(const Plan& p, Net n) {
    if (n.L.empty()) return;
    ModelRun run(n, build_model(n), "wrong-result");
    fill_state(run.m, p.find("variant")->u("fill"), 0.7f);
    for (auto& ln : p.lines) {
        if (ln.verb != "pass") continue;
        run.m.train(ln.i("train") != 0);
        run.forward(ln.u("salt"), (float)ln.f("scale", 1));
        if (ln.i("bwd")) run.backward(ln.u("salt") + 3, 1);
        check_races();
    }
    sim::count("whole models");
}
static void exec(const Plan& p) {
    const Line* v = p.find("variant");
    if (!v) return;
    if (v->s("v") == "direct") {
#ifndef NO_DIRECT
        layer_direct(p);
        return;
#endif
    }
    Net n = net_from_plan(p);
    for (size_t i = 0; i < n.L.size(); ++i) if (n.L[i].type == "Add" && n.L[i].in[1] < 0) n.L[i].in[1] = n.L[i].in[0];
    model(p, n);
}
static Register reg({"C01", gen, exec, false});
