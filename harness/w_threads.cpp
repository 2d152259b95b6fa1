// C02: threads with their own objects do not disturb one another.
#include "exec.hpp"
#include "loader.hpp"
#include "opt.hpp"
#include "proc.hpp"
#include "img.hpp"
#include <cmath>
#include <png.h>
#include <set>

using Res = std::vector<float>;
static const char* kOps[] = {"train", "train", "drop", "init", "shuffle", "seq", "state", "model", "loss", "metric", "optim", "shared", "config", "image", "image", "misc"};

static Plan gen(uint64_t seed) {
    sim::Rng r(seed * 1000003 + 102);
    Plan p;
    p.prop = "C02";
    p.seed = seed;
    p.env = r.next() >> 8;
    random_sched(p, r, 3);
    int nt = r.range(2, 4);
    p.cfg("threads").set("n", nt);
    std::string common = kOps[r.below(16)];
    for (int t = 0; t < nt; ++t) {
        int k = r.range(1, 4);
        for (int i = 0; i < k; ++i)
            p.op("do").set("th", t).set("what", r.chance(0.5) ? common : std::string(kOps[r.below(16)])).set("salt", r.next() >> 8);
    }
    return p;
}
static void out(Res& r, const dw::Tensor& t) { r.insert(r.end(), t.data(), t.data() + t.total()); }
static void model_out(Res& r, dw::Model& m, const char* what) {
    std::map<std::string, dw::Tensor> s(m.state().begin(), m.state().end());
    (void)what;
    for (auto& kv : s) if (kv.first.find("mask") == std::string::npos) out(r, kv.second);
}
// Runs one operation on objects of its own; deterministic results go to r.
static void one(const Line& ln, int th, int idx, const dw::Tensor& shared, Res& r, bool alone) {
    std::string w = ln.s("what");
    uint64_t salt = ln.u("salt");
    sim::Rng g(salt);
    std::string file = std::string(scratch_dir()) + "/t" + std::to_string(th) + "_" + std::to_string(idx);
    auto net = [&](bool drop) {
        NetOpts o;
        o.max_layers = 4;
        o.dropout = drop;
        o.softmax_end = !drop;
        o.named = g.chance(0.7);
        return gen_net(g, o);
    };
    if (w == "train" || w == "state" || w == "model" || w == "config") {
        Net n = net(false);
        dw::Model m = build_model(n);
        m.compile();
        fill_state(m, salt, 0.6f);
        std::vector<dw::Tensor> x{make_tensor(n.ins[0], salt + 1)}, y, go;
        for (int o : n.outs) { y.emplace_back(dw::Shape(n.shapes[o])); go.push_back(make_tensor(n.shapes[o], salt + 2, 0.3f)); }
        m.train(true);
        m.forward(x, y);
        m.backward(x, y, go);
        for (auto& t : y) out(r, t);
        dw::optimizer::SGDMomentum opt(m.params(), 0.05f);
        opt.step();
        model_out(r, m, "state");
        if (w == "state") {
            dw::save_state(m.state(), file);
            dw::Model q = build_model(n);
            if (n.L[0].name.empty()) {}
            dw::load_state(q.state(), file);
            model_out(r, q, "loaded");
        }
        if (w == "model") {
            dw::save(m, file);
            dw::Model q = dw::load(file);
            model_out(r, q, "loaded");
        }
        if (w == "config") {
            dw::save_cfg(m.cfg(), file);
            dw::Model q = dw::Model::Build(dw::load_cfg(file));
            r.push_back((float)q.layers().size());
            r.push_back((float)q.params().size());
        }
    } else if (w == "drop") {
        dw::Placeholder in{dw::Shape{4, 30}};
        dw::Model m(in, dw::Dropout(0.5f, "d")(in));
        m.compile();
        m.train(true);
        dw::Tensor x = dw::Tensor::constant({4, 30}, 3), y(dw::Shape{4, 30});
        for (int k = 0; k < 2; ++k) {
            m.forward(x, y);
            int z = 0;
            for (size_t i = 0; i < y.total(); ++i) {
                float v = y.data()[i];
                if (v != 0 && std::fabs(v - 6) > 1e-4f) sim::violation("disturbed", "dropout in a thread of its own delivered %.9g for 3", v);
                z += v == 0;
            }
            if (z < 10 || z > 110) sim::violation("disturbed", "dropout with p = 0.5 zeroed %d of 120 elements", z);
        }
    } else if (w == "init") {
        dw::Tensor t = dw::Tensor::uniform({50}, -2, 3), u = dw::Tensor::xavierUniform({5, 6});
        std::set<float> d;
        for (size_t i = 0; i < 50; ++i) {
            if (!(t.data()[i] >= -2 && t.data()[i] <= 3)) sim::violation("disturbed", "uniform in [-2,3] gave %.9g", t.data()[i]);
            d.insert(t.data()[i]);
        }
        if (d.size() < 25) sim::violation("disturbed", "50 uniform draws gave only %zu different values", d.size());
        for (size_t i = 0; i < 30; ++i) if (!(std::fabs(u.data()[i]) <= 3)) sim::violation("disturbed", "Xavier initialisation gave %.9g", u.data()[i]);
    } else if (w == "shuffle" || w == "seq") {
        auto ds = std::make_shared<SimDataset>(g.range(4, 12), Shp{3}, Shp{1});
        int b = g.range(1, 4);
        dw::DataLoader dl(ds, b, w == "shuffle");
        for (int e = 0; e < 2; ++e) {
            int k = 0;
            for (;;) {
                dw::Tensor X, y;
                if (!dl.pull(X, y)) break;
                auto got = ds->decode(X, y, b, "disturbed");
                std::set<int> u(got.begin(), got.end());
                if ((int)u.size() != b) sim::violation("disturbed", "a batch of %d holds %zu distinct samples", b, u.size());
                if (w == "seq") out(r, X);
                if (++k > 20) sim::violation("disturbed", "the epoch does not end");
            }
            if (k != ds->n / b) sim::violation("disturbed", "epoch of %d batches instead of %d", k, ds->n / b);
        }
    } else if (w == "loss") {
        int B = g.range(1, 5), K = g.range(2, 5);
        dw::loss::CrossEntropyLoss c;
        dw::Tensor x(dw::Shape{B, K}), gr(dw::Shape{B, K});
        for (int i = 0; i < B * K; ++i) x.data()[i] = g.real(0.05f, 1);
        for (int k = 0; k < 2; ++k) {
            r.push_back(c.forward(x, make_targets(B, K, salt)));
            c.backward(x, make_targets(B, K, salt), gr);
            out(r, gr);
        }
    } else if (w == "metric") {
        int B = g.range(1, 8), K = g.range(2, 5);
        dw::Tensor x = make_tensor({B, K}, salt), y = make_targets(B, K, salt), oh = dw::Tensor::zeros({B, K});
        for (int i = 0; i < B; ++i) oh.data()[i * K + (int)y.data()[i]] = 1;
        r.push_back(dw::metric::accuracy(x, y));
        r.push_back(dw::metric::accuracyOneHot(x, oh));
    } else if (w == "optim") {
        bool def;
        RefOpt ro = gen_opt(g, def);
        dw::ParamMap pm;
        for (int i = 0; i < 3; ++i) pm.emplace("p" + std::to_string(i), dw::Parameter(make_tensor({4}, salt + i)));
        AnyOpt o(ro, pm, def);
        for (int k = 0; k < 3; ++k) {
            for (auto& kv : pm) fill(kv.second.grad().data(), 4, salt + k + name_hash(kv.first));
            o.step();
        }
        for (int i = 0; i < 3; ++i) out(r, pm.at("p" + std::to_string(i)).data());
    } else if (w == "shared") {                 // many threads read one tensor
        dw::Placeholder in{shared.shape()};
        dw::Model m(in, dw::ReLU("r")(dw::Convolution(2, {2, 2}, {1, 1}, {1, 1}, "c")(in)));
        m.compile();
        fill_state(m, salt, 0.5f);
        dw::Tensor y(m.outputs()[0].shape());
        m.forward(shared, y);
        out(r, y);
        m.backward(shared, y, make_tensor(y.shape(), salt + 4));
        out(r, m.params().at("c.weight").grad());
        dw::Tensor c(shared.shape());
        shared.copyTo(c);
        out(r, c);
    } else if (w == "image") {
        static const int ct[] = {0, 2, 3, 6};
        bool png = salt % 3 != 0;
        Line l("op", "image");
        l.set("w", g.range(2, 6)).set("h", g.range(2, 6)).set("px", salt).set("ct", ct[g.below(4)]).set("depth", 8).set("c", g.chance(0.5) ? 1 : 3);
        std::string path = file + (png ? ".png" : ".jpg");
        bool cut = g.chance(0.3);
        if (!alone) {
            Img a, b;
            std::string by = png ? png_make(l, a, b) : jpg_make(l);
            if (cut) by.resize(by.size() / 2);
            spit(path, by);
        }
        try {
            dw::Tensor t = dw::io::ReadImage(path);
            out(r, t);
        } catch (const std::exception& e) {
            if (!cut) throw;
            r.push_back(-1);
        }
    } else if (w == "misc") {                   // failures, printing, graph descriptions
        Net n = net(false);
        dw::Model m = build_model(n);
        dw::save_dot(m.cfg(), file + ".dot");
        std::string d = slurp(file + ".dot");
        r.push_back((float)std::count(d.begin(), d.end(), '>'));
        for (int k = 0; k < 2; ++k) {
            try { dw::load(file + ".none"); r.push_back(1); } catch (const std::exception& e) { r.push_back(strlen(e.what()) > 5); }
            try { dw::Tensor a(dw::Shape{2, 3}), b(dw::Shape{3, 2}); a.copyTo(b); r.push_back(1); } catch (const std::exception&) { r.push_back(2); }
        }
        std::ostringstream o;
        o << make_tensor({3}, salt);
        std::string txt = o.str();
        for (char ch : txt) r.push_back(ch);
    }
}
static void exec(const Plan& p) {
    const Line* c = p.find("threads");
    int nt = (int)c->i("n", 2);
    std::vector<std::vector<const Line*>> prog(nt);
    for (auto& ln : p.lines) if (ln.verb == "do" && ln.i("th") < nt) prog[ln.i("th")].push_back(&ln);
    dw::Tensor shared = make_tensor({3, 2, 5, 4}, 17);
    DVec shared0 = to_d(shared);
    std::vector<std::vector<Res>> got(nt), ref(nt);
    auto body = [&](int t, std::vector<Res>& res, bool alone) {
        for (size_t i = 0; i < prog[t].size(); ++i) {
            Res r;
            sim::phase("thread %d %s", t, prog[t][i]->s("what").c_str());
            try {
                one(*prog[t][i], t, (int)i, shared, r, alone);
            } catch (const std::exception& e) {
                sim::violation("unexpected-exception", "thread %d, %s: %s", t, prog[t][i]->s("what").c_str(), e.what());
            }
            res.push_back(r);
        }
    };
    std::vector<sim::ThreadRef> th;
    for (int t = 0; t < nt; ++t) th.push_back(sim::spawn([&, t] { body(t, got[t], false); }));
    for (auto& t : th) sim::join(t);
    check_races();
    for (int t = 0; t < nt; ++t) body(t, ref[t], true);
    for (int t = 0; t < nt; ++t)
        for (size_t i = 0; i < ref[t].size(); ++i) {
            const Res &a = got[t][i], &b = ref[t][i];
            const char* w = "operation";
            std::string ws = prog[t][i]->s("what");
            w = ws.c_str();
            if (a.size() != b.size()) sim::violation("disturbed", "thread %d, %s: %zu results, %zu when running alone", t, w, a.size(), b.size());
            float m = 0;
            for (float x : b) m = std::max(m, std::fabs(x));
            sim::hash_bytes(a.data(), a.size() * 4);
            for (size_t j = 0; j < a.size(); ++j)
                if (!(std::fabs(a[j] - b[j]) <= 2e-4f * (std::fabs(b[j]) + m * 0.05f) + 1e-6f) && !(std::isnan(a[j]) && std::isnan(b[j])))
                    sim::violation("disturbed", "thread %d, %s: result %zu is %.9g, running alone it is %.9g", t, w, j, a[j], b[j]);
            sim::count(("thread op " + ws).c_str());
        }
    if (to_d(shared) != shared0) sim::violation("disturbed", "the shared input tensor changed");
    sim::count("concurrent programs");
}
static Register reg({"C02", gen, exec, false});
