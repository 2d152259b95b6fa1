// C10: allocation failures at any point of an operation.
#include "exec.hpp"
#include "img.hpp"
#include "loader.hpp"
#include "opt.hpp"
#include <algorithm>
#include <cmath>
#include <set>
#ifndef NO_DIRECT
#include "runtime/cpu/layers/cpulayer.hpp"
#endif

static const char* kCls = "bad-after-oom";
void layer_plan(Plan& p, sim::Rng& r, bool oom);
void layer_direct(const Plan& p);
static const char* kWhat[] = {"allocate", "allocate", "huge", "copy", "build", "build_cfg", "compile", "forward", "forward", "forward", "backward", "backward", "train",
                              "loss", "lossgrad", "pull", "shuffle", "optim", "step", "load_state", "load", "save", "image"};
static Plan gen(uint64_t seed) {
    sim::Rng r(seed * 1000003 + 110);
    Plan p;
    p.prop = "C10";
    p.seed = seed;
    p.env = r.next() >> 8;
    random_sched(p, r, 4);
#ifndef NO_DIRECT
    if (r.chance(0.2)) { layer_plan(p, r, true); return p; }
#endif
    std::string w = kWhat[r.below(sizeof kWhat / sizeof *kWhat)];
    Line& c = p.cfg("target").set("what", w).set("salt", r.next() >> 8).set("train", r.chance(0.7) ? 1 : 0);
    if (w == "image") { img_gen(r, c, r.chance(0.3), false); c.set("what", w); if (c.s("to") == "wrong") c.set("to", std::string("empty")); }
    NetOpts o;
    o.max_layers = 4;
    o.dag = r.chance(0.4);
    o.max_inputs = 2;
    o.p4d = 0.75;
    Net n = gen_net(r, o);
    net_to_plan(n, p);
    // operations before, so that scratch memory of another shape or age is in place
    int k = r.below(3);
    for (int i = 0; i < k; ++i) p.op("before").set("salt", r.next() >> 8);
    k = r.range(1, 3);
    for (int i = 0; i < k; ++i) p.fault("oom").set("at", r.chance(0.5) ? r.unit() : r.chance(0.5) ? 0.999999 : r.unit() * 0.2).set("all", r.chance(0.35) ? 1 : 0);
    k = r.below(3);
    for (int i = 0; i < k; ++i) p.op("after").set("salt", r.next() >> 8);
    return p;
}
// A tensor must describe memory it has: geometry fits and every element can be written and read.
static void sound(const dw::Tensor& t, const char* what) {
    size_t n = 1;
    bool none = t.shape().empty();
    for (int d : t.shape()) { if (d < 0) sim::violation(kCls, "%s has a negative dimension", what); n *= (size_t)d; }
    if (none) n = t.total();                 // a scalar or an empty tensor
    if (t.total() != n) sim::violation(kCls, "%s says it has %zu elements, its shape %s has %zu", what, t.total(), shape_text(t.shape()).c_str(), n);
    if (t.strides().size() != t.shape().size()) sim::violation(kCls, "%s has strides that do not belong to its shape", what);
    size_t st = 1;
    for (size_t i = t.shape().size(); i-- > 0;) { if (t.strides()[i] != st) sim::violation(kCls, "%s has strides that do not belong to its shape %s", what, shape_text(t.shape()).c_str()); st *= (size_t)t.shape()[i]; }
    if (t.total() && !t.data()) sim::violation(kCls, "%s says it has %zu elements but has no memory", what, t.total());
    volatile float* d = t.data();
    for (size_t i = 0; i < t.total(); ++i) { float v = d[i]; d[i] = v; }
#ifdef SIM_T
    if (t.total() && sim::heap_room(t.data()) != (size_t)-1 && sim::heap_room(t.data()) < t.total() * 4) sim::violation(kCls, "%s says it has %zu elements, its memory has room for %zu", what, t.total(), sim::heap_room(t.data()) / 4);
#endif
}
struct Scene {
    virtual ~Scene() {}
    virtual void prepare() {}
    virtual void op() = 0;                    // library calls only
    virtual void after_failure() {}           // everything involved is still sound
    virtual void after_success(int attempt) = 0;
    virtual bool may_throw() { return false; }
};
struct TensorScene : Scene {
    Shp a, b;
    bool had, huge;
    dw::Shape s;
    dw::Tensor t, alias;
    TensorScene(uint64_t salt, bool hg) : huge(hg) {
        sim::Rng r(salt);
        auto sh = [&] { Shp x; int d = r.range(1, 4); for (int i = 0; i < d; ++i) x.push_back(r.range(r.chance(0.05) ? 0 : 1, 9)); return x; };
        had = r.chance(0.7);
        a = sh();
        b = sh();
        if (huge) {
            static const Shp h[] = {{65536, 65536}, {46341, 46341}, {65536, 32768, 2}, {2147483647, 2}, {1073741824, 4}, {65536, 65536, 65536, 65536}, {2147483647, 2147483647, 4}, {40000, 40000, 3}, {65537, 65537}};
            b = h[r.below(9)];
        }
        if (had) { t = make_tensor(a, 3); if (r.chance(0.5)) alias = t; }
        s = dw::Shape(b);
    }
    void op() override { t.allocate(s); }
    bool may_throw() override { return huge; }
    void after_failure() override { sound(t, "a tensor whose allocation failed"); sound(alias, "a tensor that shares it"); }
    void after_success(int) override {
        if (Shp(t.shape()) != b) sim::violation(kCls, "allocate gave another shape");
        if (huge) {
            if (t.total() != numel(b)) sim::violation(kCls, "a tensor of shape %s says it has %zu elements", shape_text(t.shape()).c_str(), t.total());
            return;
        }
        sound(t, "an allocated tensor");
    }
};
struct CopyScene : Scene {
    Shp a;
    dw::Tensor t, c, z, u;
    CopyScene(uint64_t salt) { sim::Rng r(salt); a = {r.range(1, 5), r.range(1, 5)}; t = make_tensor(a, salt); }
    void op() override {
        c = dw::Tensor(t.shape());
        t.copyTo(c);
        z = dw::Tensor::zeros(t.shape());
        u = dw::Tensor::uniform(t.shape(), 1, 2);
    }
    void after_failure() override { for (auto* x : {&t, &c, &z, &u}) sound(*x, "a tensor"); }
    void after_success(int) override {
        if (to_d(c) != to_d(t)) sim::violation(kCls, "the copy differs");
        for (size_t i = 0; i < z.total(); ++i) if (z.data()[i] != 0 || !(u.data()[i] >= 1 && u.data()[i] <= 2)) sim::violation(kCls, "wrong values after a retry");
    }
};
struct ModelScene : Scene {
    Net n;
    std::string what;
    const Plan& p;
    uint64_t salt;
    bool train;
    std::unique_ptr<ModelRun> run;
    std::unique_ptr<dw::Model> m;
    std::vector<dw::Tensor> x, y, go;
    dw::Model::Config cfg;
    Snap before;
    std::vector<std::pair<std::string, dw::Tensor>> all;
    dw::loss::CrossEntropyLoss loss;
    std::string file;
    ModelScene(const Plan& p, const Line& c) : n(net_from_plan(p)), what(c.s("what")), p(p), salt(c.u("salt")), train(c.i("train") != 0) {
        if (n.L.empty()) return;
        file = std::string(scratch_dir()) + "/m";
        if (what == "build") return;
        m.reset(new dw::Model(build_model(n)));
        if (what == "build_cfg") { cfg = m->cfg(); m.reset(); return; }
        fill_state(*m, salt, 0.7f);
        if (what == "load" || what == "load_state" || what == "save") {
            if (what == "load") dw::save(*m, file);
            if (what == "load_state") { dw::save_state(m->state(), file); before = snapshot(*m); fill_state(*m, salt + 1, 0.2f); }
            if (what == "save") before = snapshot(*m);
            if (what == "load") before = snapshot(*m);
            return;
        }
        m->train(train);
        if (what == "compile") { before = snapshot(*m); return; }
        run.reset(new ModelRun(n, *m, kCls));
        for (auto& l : p.lines) if (l.verb == "before") { run->forward(l.u("salt"), 1, false); if (l.u("salt") & 1) run->backward(l.u("salt") + 1, 1); }
        if (what == "backward") run->forward(salt, 1, false);
        else run->inputs(salt, 1);
        for (size_t i = 0; i < run->out.size(); ++i) go.push_back(make_tensor(run->out[i].shape(), salt * 57 + i, 0.5f));
        before = snapshot(*m);
        for (auto& kv : m->state()) all.push_back({kv.first, kv.second});
        for (auto& kv : m->params()) all.push_back({"gradient of " + kv.first, kv.second.grad()});
    }
    void op() override {
        if (what == "build") m.reset(new dw::Model(build_model(n)));
        else if (what == "build_cfg") m.reset(new dw::Model(dw::Model::Build(cfg)));
        else if (what == "compile") m->compile();
        else if (what == "forward") m->forward(run->in, run->out);
        else if (what == "backward") m->backward(run->in, run->out, go);
        else if (what == "train") { m->forward(run->in, run->out); m->backward(run->in, run->out, go); }
        else if (what == "load_state") dw::load_state(m->state(), file);
        else if (what == "load") m.reset(new dw::Model(dw::load(file)));
        else if (what == "save") dw::save(*m, file);
    }
    void after_failure() override {
        for (auto& t : all) sound(t.second, t.first.c_str());
        if (run) { for (auto& t : run->in) sound(t, "an input"); for (auto& t : run->out) sound(t, "an output"); }
        if (!run && what != "compile") return;
        // parameters are untouched; in evaluation mode and after a failed backward everything is
        Snap now = snapshot(*m);
        for (auto& kv : before) {
            bool buf = !m->params().count(kv.first);
            if (buf && train && what != "backward" && what != "compile") continue;
            if (now[kv.first].size() != kv.second.size() || memcmp(now[kv.first].data(), kv.second.data(), kv.second.size() * 4)) sim::violation(kCls, "a %s pass that failed changed %s", what.c_str(), kv.first.c_str());
        }
    }
    void after_success(int) override {
        if (what == "build" || what == "build_cfg") { fill_state(*m, salt, 0.7f); check_model(*m); return; }
        if (what == "compile") { check_model(*m); return; }
        if (what == "load" || what == "load_state" || what == "save") {
            Snap now;
            if (what == "save") { dw::Model q = dw::load(file); now = snapshot(q); } else now = snapshot(*m);
            std::string d = snap_diff(before, now);
            if (!d.empty()) sim::violation(kCls, "%s after a failure for lack of memory: %s", what.c_str(), d.c_str());
            return;
        }
        // the passes again, compared with the reference
        std::vector<dw::Tensor> o1;
        if (what == "forward") {
            // outputs of the successful attempt
            std::vector<std::vector<float>> got;
            for (auto& t : run->out) got.emplace_back(t.data(), t.data() + t.total());
            std::vector<DVec> in = ModelRun::d(run->in);
            RefNet ref(n);
            ref.load(*m);
            if (!train) {
                PassRef pr = pass_reference(ref, in, {}, false, salt);
                for (size_t i = 0; i < run->out.size(); ++i) expect(kCls, pr.obs, "out" + std::to_string(i), run->out[i], "output after a retry");
            } else {                      // running statistics do not enter the outputs in training mode
                PassRef pr = pass_reference(ref, in, {}, false, salt);
                for (size_t i = 0; i < run->out.size(); ++i) expect(kCls, pr.obs, "out" + std::to_string(i), run->out[i], "output after a retry");
            }
        }
        if (what == "backward" || what == "train") {
            RefNet ref(n);
            ref.load(*m);
            PassRef pr = pass_reference(ref, ModelRun::d(run->in), ModelRun::d(go), true, salt);
            if (!pr.kinky)
                for (auto& l : ref.L)
                    for (auto& q : l.par) {
                        std::string key = l.sp.name + "." + q.first;
                        expect(kCls, pr.obs, "grad:" + key, m->params().at(key).grad(), "gradient after a retry");
                    }
            else sim::count("gradients undecided (kink)");
        }
        for (auto& l : p.lines) if (l.verb == "after") { run->forward(l.u("salt"), 1); run->backward(l.u("salt") + 1, 1); }
    }
    void check_model(dw::Model& q) {
        q.train(train);
        ModelRun r(n, q, kCls);
        r.forward(salt, 1);
        r.backward(salt + 1, 1);
    }
};
struct LossScene : Scene {
    bool back;
    int B, K;
    uint64_t salt;
    dw::loss::CrossEntropyLoss c;
    dw::Tensor x, t, g;
    float v = 0;
    LossScene(const Plan& p, uint64_t s, bool b) : back(b), salt(s) {
        sim::Rng r(s);
        auto mk = [&](int B, int K) { dw::Tensor q(dw::Shape{B, K}); for (int i = 0; i < B * K; ++i) q.data()[i] = r.real(0.05f, 1); return q; };
        for (auto& l : p.lines) if (l.verb == "before") { int b1 = r.range(1, 5), k1 = r.range(2, 5); c.forward(mk(b1, k1), make_targets(b1, k1, s)); }
        B = r.range(1, 6);
        K = r.range(2, 6);
        x = mk(B, K);
        t = make_targets(B, K, s);
        g = make_tensor({B, K}, 4);
    }
    void op() override { if (back) c.backward(x, t, g); else v = c.forward(x, t); }
    void after_failure() override { sound(g, "the gradient"); sound(x, "the predictions"); }
    void after_success(int) override {
        double s = 0;
        for (int i = 0; i < B; ++i) s -= std::log((double)x.data()[i * K + (int)t.data()[i]]);
        s /= B;
        if (!back && !(std::fabs(v - s) <= 1e-4 * (1 + std::fabs(s)))) sim::violation(kCls, "loss %.9g after a retry, it is %.9g", v, s);
        if (back)
            for (int i = 0; i < B * K; ++i) {
                double w = i % K == (int)t.data()[i / K] ? -1 / ((double)x.data()[i] * B) : 0;
                if (!(std::fabs(g.data()[i] - w) <= 1e-5 * std::fabs(w))) sim::violation(kCls, "loss gradient [%d] is %.9g after a retry, it is %.9g", i, g.data()[i], w);
            }
        checked_loss(c, x, t, g, kCls, "after a retry");
    }
};
struct PullScene : Scene {
    std::shared_ptr<SimDataset> ds;
    int B, pos = 0;
    bool sh;
    std::unique_ptr<dw::DataLoader> dl;
    dw::Tensor X, Y;
    bool more = false;
    PullScene(const Plan& p, uint64_t salt, bool sh) : sh(sh) {
        sim::Rng r(salt);
        B = r.range(1, 4);
        ds = std::make_shared<SimDataset>(B * r.range(2, 4) + r.below(B), Shp{r.range(1, 4), 2}, Shp{1});
        dl.reset(new dw::DataLoader(ds, B, sh));
        for (auto& l : p.lines) if (l.verb == "before" && pos + B < ds->n) { dw::Tensor a, b; dl->pull(a, b); pos += B; }
        if (r.chance(0.3)) { X = make_tensor({B, ds->xs[0], 2}, 3); Y = make_tensor({B, 1}, 3); }
        if (pos + B > ds->n) pos = -1;
    }
    void op() override { more = dl->pull(X, Y); }
    void after_failure() override { sound(X, "the batch"); sound(Y, "the labels"); }
    void after_success(int) override {
        if (pos < 0) return;
        if (!more) sim::violation(kCls, "a pull repeated after a failure reports the end of the epoch");
        auto got = ds->decode(X, Y, B, kCls);
        std::set<int> u(got.begin(), got.end());
        if ((int)u.size() != B) sim::violation(kCls, "the batch delivered after a failure repeats samples");
        if (!sh) for (int i = 0; i < B; ++i) if (got[i] != pos + i) sim::violation(kCls, "the pull repeated after a failure delivered sample %d instead of %d", got[i], pos + i);
        pos += B;
        int left = (ds->n - pos) / B;
        for (int i = 0; i < left; ++i) if (!dl->pull(X, Y)) sim::violation(kCls, "the epoch ended %d batches early after a failure", left - i);
        if (dl->pull(X, Y)) sim::violation(kCls, "the epoch has too many batches after a failure");
    }
};
struct OptScene : Scene {
    RefOpt ro;
    bool def;
    dw::ParamMap pm;
    AnyOpt o;
    uint64_t salt;
    bool step;
    std::map<std::string, std::pair<DVec, DVec>> want;
    OptScene(uint64_t s, bool st) : salt(s), step(st) {
        sim::Rng r(s);
        ro = gen_opt(r, def);
        int k = r.range(1, 4);
        for (int i = 0; i < k; ++i) pm.emplace("p" + std::to_string(i), dw::Parameter(make_tensor({r.range(1, 6)}, s + i)));
        if (!step) return;
        o = AnyOpt(ro, pm, def);
        for (int i = 0; i <= k % 3; ++i) {
            for (auto& kv : pm) fill(kv.second.grad().data(), kv.second.grad().total(), salt + 50 + i + name_hash(kv.first));
            if (i < k % 3) checked_step(o, ro, pm, kCls, -i);
        }
        ++ro.t;
        for (auto& kv : pm) {
            auto v = [](const dw::Tensor& t) { return std::vector<float>(t.data(), t.data() + t.total()); };
            auto& w = want[kv.first];
            ro.step(kv.first, v(kv.second.data()), v(kv.second.grad()), w.first, w.second);
        }
    }
    void op() override { if (step) o.step(); else o = AnyOpt(ro, pm, def); }
    void after_failure() override { for (auto& kv : pm) { sound(kv.second.data(), "a parameter"); sound(kv.second.grad(), "a gradient"); } }
    void after_success(int) override {
        for (auto& w : want) {
            const dw::Tensor& t = pm.at(w.first).data();
            for (size_t i = 0; i < t.total(); ++i)
                if (!(std::fabs(t.data()[i] - w.second.first[i]) <= w.second.second[i])) sim::violation(kCls, "an optimizer step repeated after a failure gave %s[%zu] = %.9g instead of %.9g", w.first.c_str(), i, t.data()[i], w.second.first[i]);
        }
        for (int k = 0; k < 3; ++k) {
            for (auto& kv : pm) fill(kv.second.grad().data(), kv.second.grad().total(), salt + k + name_hash(kv.first));
            checked_step(o, ro, pm, kCls, k);
        }
    }
};
struct ImgScene : Scene {
    Line l;
    Case k;
    std::string path;
    dw::Tensor t;
    ImgScene(const Line& c) : l(c), k(img_case(c)) {
        path = std::string(scratch_dir()) + "/i." + l.s("fmt");
        unlink(path.c_str());
        if (k.file) spit(path, k.bytes);
        if (l.s("to") == "given" && k.may_work) t = make_tensor({k.want.h, k.want.w, k.want.c}, 1);
    }
    void op() override { dw::io::ReadImage(path, t); }
    bool may_throw() override { return !k.must_work; }
    void after_failure() override { sound(t, "the target of a failed image read"); if (sim::io_open_handles()) sim::violation(kCls, "a failed image read left the file open"); }
    void after_success(int) override {
        if (!k.may_work) return;
        bool a = t.total() == k.want.px.size(), b = a;
        for (size_t i = 0; i < k.want.px.size() && (a || b); ++i) { a = a && t.data()[i] == k.want.px[i]; b = b && t.data()[i] == k.alt.px[i]; }
        if (!a && !b) sim::violation(kCls, "wrong pixels after a retry");
    }
};
static std::unique_ptr<Scene> make(const Plan& p) {
    const Line& c = *p.find("target");
    std::string w = c.s("what");
    uint64_t s = c.u("salt");
    if (w == "allocate" || w == "huge") return std::unique_ptr<Scene>(new TensorScene(s, w == "huge"));
    if (w == "copy") return std::unique_ptr<Scene>(new CopyScene(s));
    if (w == "loss" || w == "lossgrad") return std::unique_ptr<Scene>(new LossScene(p, s, w == "lossgrad"));
    if (w == "pull" || w == "shuffle") return std::unique_ptr<Scene>(new PullScene(p, s, w == "shuffle"));
    if (w == "optim" || w == "step") return std::unique_ptr<Scene>(new OptScene(s, w == "step"));
    if (w == "image") return std::unique_ptr<Scene>(new ImgScene(c));
    ModelScene* m = new ModelScene(p, c);
    return std::unique_ptr<Scene>(m);
}
static void exec(const Plan& p) {
#ifndef NO_DIRECT
    if (p.find("variant")) { layer_direct(p); return; }
#endif
    const Line* c = p.find("target");
    if (!c) return;
    std::string w = c->s("what");
    if (net_from_plan(p).L.empty()) return;
    if (w == "image") { Case k = img_case(*c); if (k.skip) return; }
    long total = 0;
    {
        sim::phase("%s (pilot)", w.c_str());
        auto pilot = make(p);
        sim::alloc_arm({-1, false});
        try { pilot->op(); } catch (const std::exception& e) { if (!pilot->may_throw()) throw; }
        total = sim::alloc_disarm();
    }
    auto sc = make(p);
    bool done = false;
    int attempt = 0;
    for (auto& l : p.lines) {
        if (l.verb != "oom" || done || !total) continue;
        sim::AllocFault f;
        f.index = std::min(total - 1, (long)(l.f("at") * total));
        f.persistent = l.i("all") != 0;
        sim::phase("%s with allocation %ld of %ld failing%s", w.c_str(), f.index, total, f.persistent ? " and all later ones" : "");
        bool threw = false;
        sim::alloc_arm(f);
        try { sc->op(); } catch (const std::exception&) { threw = true; }
        sim::alloc_disarm();
        ++attempt;
        if (sim::alloc_failures()) sim::count("operations hit by an allocation failure");
        else if (threw && !sc->may_throw()) sim::violation(kCls, "%s threw although no allocation failed", w.c_str());
        check_races();
        if (threw) { sim::phase("after %s failed", w.c_str()); sc->after_failure(); }
        else done = true;
    }
    if (!done) {
        sim::phase("%s repeated", w.c_str());
        try { sc->op(); done = true; } catch (const std::exception& e) {
            if (!sc->may_throw()) sim::violation(kCls, "%s repeated with enough memory failed: %s", w.c_str(), e.what());
        }
    }
    sim::phase("after %s", w.c_str());
    if (done) sc->after_success(attempt);
    else sc->after_failure();
    sim::count(("op " + w).c_str());
    sim::hash_u64(done * 100 + attempt);
}
static Register reg({"C10", gen, exec, false});
