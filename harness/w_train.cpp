// C11: training through any history.
#include "exec.hpp"
#include "opt.hpp"
#include "proc.hpp"
#include <cstring>

RefOpt gen_opt(sim::Rng& r, bool& defaults) {
    RefOpt o;
    o.kind = (int)r.below(3);
    o.lr = r.real(0.005f, 0.3f);
    defaults = r.chance(0.3);
    if (!defaults) {
        o.gamma = r.real(0.f, 0.97f);
        o.b1 = r.real(0.5f, 0.95f);
        o.b2 = r.real(0.5f, 0.999f);
        o.eps = r.chance(0.5) ? 0.001f : r.real(0.0001f, 0.1f);
        if (r.chance(0.25)) o.t = r.range(1, r.chance(0.3) ? 2000 : 40);
    }
    return o;
}
static std::vector<float> vec(const dw::Tensor& t) { return std::vector<float>(t.data(), t.data() + t.total()); }
void checked_step(AnyOpt& o, RefOpt& ref, dw::ParamMap& params, const char* cls, int no) {
    std::map<std::string, std::vector<float>> w, g;
    for (auto& kv : params) { w[kv.first] = vec(kv.second.data()); g[kv.first] = vec(kv.second.grad()); }
    o.step();
    ref.t++;
    for (auto& kv : params) {
        const std::string& n = kv.first;
        auto now = vec(kv.second.data());
        sim::hash_bytes(now.data(), now.size() * 4);
        if (now.size() != w[n].size()) sim::violation(cls, "step %d resized %s", no, n.c_str());
        if (!kv.second.is_trainable()) {
            for (size_t i = 0; i < now.size(); ++i)
                if (memcmp(&now[i], &w[n][i], 4)) sim::violation(cls, "optimizer step %d moved frozen parameter %s[%zu] from %.9g to %.9g", no, n.c_str(), i, w[n][i], now[i]);
            sim::count("frozen parameters checked");
        } else {
            DVec want, tol;
            ref.step(n, w[n], g[n], want, tol);
            for (size_t i = 0; i < now.size(); ++i)
                if (std::isfinite(want[i]) && !(std::fabs(now[i] - want[i]) <= tol[i]))
                    sim::violation(cls, "optimizer step %d: %s[%zu] went from %.9g to %.9g instead of %.9g (gradient %.9g, tolerance %.3g)", no, n.c_str(), i, w[n][i], now[i], want[i], g[n][i], tol[i]);
        }
        for (size_t i = 0; i < g[n].size(); ++i)
            if (memcmp(&g[n][i], kv.second.grad().data() + i, 4)) sim::violation(cls, "optimizer step %d changed the gradient of %s", no, n.c_str());
    }
    if (o.get_lr() != ref.lr) sim::violation(cls, "learning rate is %.9g instead of %.9g", o.get_lr(), ref.lr);
    sim::count("optimizer steps");
}
dw::Tensor make_targets(int b, int k, uint64_t salt) {
    dw::Tensor t(dw::Shape{b, 1});
    sim::Rng r(salt + 11);
    for (int i = 0; i < b; ++i) t.data()[i] = (float)r.below((uint32_t)k);
    return t;
}
void checked_loss(dw::loss::CrossEntropyLoss& c, const dw::Tensor& pred, const dw::Tensor& target, dw::Tensor& grad, const char* cls, const std::string& what) {
    int B = pred.shape()[0], K = pred.shape()[1];
    DVec p = to_d(pred), y = to_d(target);
    double s = 0, m = 0, mn = 1;
    for (int i = 0; i < B; ++i) {
        double q = p[(size_t)i * K + (int)y[i]];
        mn = std::min(mn, q);
        s -= std::log(q);
        m += std::fabs(std::log(q)) + 1;
    }
    float v = c.forward(pred, target);
    sim::hash_bytes(&v, 4);
    for (size_t i = 0; i < grad.total(); ++i) grad.data()[i] = 333;
    c.backward(pred, target, grad);
    if (mn < 1e-30) { sim::count("loss undecided (vanishing probability)"); return; }
    if (!(std::fabs(v - s / B) <= 4e-6 * m / B + 1e-6)) sim::violation(cls, "%s: loss is %.9g instead of %.9g", what.c_str(), v, s / B);
    for (int i = 0; i < B; ++i)
        for (int k = 0; k < K; ++k) {
            double w = k == (int)y[i] ? -1 / (p[(size_t)i * K + k] * B) : 0;
            float g = grad.data()[(size_t)i * K + k];
            if (!(std::fabs(g - w) <= 1e-5 * std::fabs(w))) sim::violation(cls, "%s: loss gradient [%d][%d] is %.9g instead of %.9g", what.c_str(), i, k, g, w);
        }
    if (to_d(pred) != p || to_d(target) != y) sim::violation(cls, "%s: the loss changed its arguments", what.c_str());
    sim::count("losses checked");
}

static Plan gen(uint64_t seed) {
    sim::Rng r(seed * 1000003 + 111);
    Plan p;
    p.prop = "C11";
    p.seed = seed;
    p.env = r.next() >> 8;
    random_sched(p, r, 4);
    bool defaults;
    RefOpt o = gen_opt(r, defaults);
    bool bare = r.chance(0.3);
    Line& v = p.cfg("variant").set("bare", bare ? 1 : 0).set("defaults", defaults ? 1 : 0).set("fill", r.next() >> 8).set("scale", r.chance(0.8) ? 0.5 : 1.5);
    opt_to_line(o, v);
    int nl = 3;
    bool large = false;
    if (!bare) {
        NetOpts no;
        no.softmax_end = true;
        no.max_layers = 5;
        no.big = r.chance(0.1);
        no.dag = r.chance(0.25);
        no.max_inputs = 1;
        Net n = gen_net(r, no);
        nl = (int)n.L.size();
        net_to_plan(n, p);
    } else {
        int k = r.range(1, 4);
        large = r.chance(0.06);
        for (int i = 0; i < k; ++i) {
            Shp s;
            int d = r.range(1, 4);
            for (int j = 0; j < d; ++j) s.push_back(r.range(1, 5));
            if (large && r.chance(0.6)) s = r.chance(0.5) ? Shp{r.range(1, 20000)} : Shp{r.range(1, 200), r.range(1, 150)};
            p.op("param").set("name", hex_encode("p" + std::to_string(i))).set("shape", s).set("train", r.chance(0.85) ? 1 : 0);
        }
        nl = k;
    }
    int k = r.range(2, 12);
    if (bare && !large && r.chance(0.25)) p.op("burst").set("n", r.range(10, r.chance(0.2) ? 600 : r.chance(0.02) ? 4000 : 60)).set("salt", r.next() >> 8);
    for (int i = 0; i < k; ++i) {
        int c = r.below(20);
        uint64_t salt = r.next() >> 8;
        if (c < 10) p.op("step").set("salt", salt).set("scale", r.chance(0.8) ? 1.0 : 30.0);
        else if (c < 12) p.op("freeze").set("layer", (int)r.below((uint32_t)nl)).set("on", r.chance(0.4) ? 1 : 0);
        else if (c == 12) p.op("mode").set("on", r.chance(0.6) ? 1 : 0);
        else if (c == 13) p.op("lr").set("lr", (double)r.real(0.001f, 0.4f));
        else if (c == 14) p.op("evaluate").set("salt", salt);
        else if (c == 15) p.op("ckpt");
        else if (c == 16) p.fault("crash").set("defaults", defaults ? 1 : 0);
        else if (c == 17) p.op("backward").set("salt", salt);
        else if (r.chance(0.03)) p.op("loss").set("b", r.range(1, 1100)).set("k", r.range(1, 150)).set("salt", salt);
        else p.op("loss").set("b", r.range(1, r.chance(0.15) ? 150 : 8)).set("k", r.range(1, r.chance(0.15) ? 60 : 8)).set("salt", salt);
    }
    p.op("step").set("salt", r.next() >> 8).set("scale", 1.0);
    return p;
}

static void some_loss(dw::loss::CrossEntropyLoss& c, const Line& ln) {
    int B = (int)ln.i("b", 1), K = (int)ln.i("k", 2);
    dw::Tensor x(dw::Shape{B, K}), g(dw::Shape{B, K});
    sim::Rng r(ln.u("salt"));
    for (int i = 0; i < B; ++i) {
        double s = 0;
        for (int k = 0; k < K; ++k) s += x.data()[i * K + k] = (float)std::exp(r.real(-8.f, 3.f));
        for (int k = 0; k < K; ++k) x.data()[i * K + k] /= (float)s;
    }
    checked_loss(c, x, make_targets(B, K, ln.u("salt")), g, "wrong-loss", "loss on its own");
}
static void bare(const Plan& p) {
    const Line* v = p.find("variant");
    dw::ParamMap params;
    std::vector<std::string> names;
    sim::Rng r(v->u("fill"));
    for (auto& ln : p.lines)
        if (ln.verb == "param") {
            dw::Tensor t = make_tensor(ln.v("shape"), r.next(), 1);
            sim::Rng z(r.next());
            for (size_t i = 0; i < t.total(); ++i)
                if (z.chance(0.15)) t.data()[i] = z.pick(std::vector<float>{-0.f, 0.f, 1e-40f, -1e-40f, 3e30f});
            names.push_back(hex_decode(ln.s("name")));
            params.emplace(names.back(), dw::Parameter(std::move(t), ln.i("train", 1) != 0));
        }
    if (names.empty()) return;
    RefOpt ref = opt_from_line(*v);
    AnyOpt opt(ref, params, v->i("defaults") != 0);
    dw::loss::CrossEntropyLoss crit;
    int no = 0;
    for (auto& ln : p.lines) {
        sim::phase("%s", ln.verb.c_str());
        if (ln.verb == "step" || ln.verb == "backward") {
            for (auto& n : names) fill(params.at(n).grad().data(), params.at(n).grad().total(), ln.u("salt") ^ name_hash(n), (float)ln.f("scale", 1));
            if (ln.verb == "step") checked_step(opt, ref, params, "wrong-step", ++no);
        }
        if (ln.verb == "burst")
            for (long i = 0; i < ln.i("n"); ++i) {
                for (auto& n : names) fill(params.at(n).grad().data(), params.at(n).grad().total(), (ln.u("salt") + i) ^ name_hash(n), 1);
                checked_step(opt, ref, params, "wrong-step", ++no);
            }
        if (ln.verb == "freeze") params.at(names[ln.i("layer") % names.size()]).train(ln.i("on") != 0);
        if (ln.verb == "mode") for (auto& kv : params) kv.second.train(ln.i("on") != 0);
        if (ln.verb == "lr") { ref.lr = (float)ln.f("lr"); opt.set_lr(ref.lr); }
        if (ln.verb == "loss") some_loss(crit, ln);
    }
    sim::count("optimizer-only histories");
}
static void exec(const Plan& p) {
    const Line* v = p.find("variant");
    if (!v) return;
    if (v->i("bare")) return bare(p);
    Net n = net_from_plan(p);
    if (n.L.empty()) return;
    bool soft = n.outs.size() == 1 && n.L.back().type == "Softmax" && n.outs[0] == n.vid((int)n.L.size() - 1);
    float scale = (float)v->f("scale", 0.5);
    std::unique_ptr<ModelRun> run(new ModelRun(n, build_model(n), "wrong-step"));
    fill_state(run->m, v->u("fill"), scale);
    RefOpt base = opt_from_line(*v), ref = base;
    AnyOpt opt(ref, run->m.params(), v->i("defaults") != 0);
    dw::loss::CrossEntropyLoss crit;
    std::string path = std::string(scratch_dir()) + "/ckpt";
    Snap saved;
    int no = 0;
    bool have_ckpt = false;
    for (auto& ln : p.lines) {
        sim::phase("%s", ln.verb.c_str());
        if ((ln.verb == "step" || ln.verb == "backward")) {
            run->forward(ln.u("salt"), (float)std::min(ln.f("scale", 1), 4.0));
            if (soft) {
                int B = n.shapes[n.outs[0]][0], K = n.shapes[n.outs[0]][1];
                dw::Tensor g(dw::Shape{B, K}), y = make_targets(B, K, ln.u("salt"));
                checked_loss(crit, run->out[0], y, g, "wrong-loss", "training step");
            }
            run->backward(ln.u("salt") + 9, 1);
            check_races();
            if (ln.verb == "step") checked_step(opt, ref, run->m.params(), "wrong-step", ++no);
        }
        if (ln.verb == "freeze" && ln.i("layer") < (int)n.L.size()) set_mode(run->m, n.L[ln.i("layer")].name, ln.i("on") != 0);
        if (ln.verb == "mode") run->m.train(ln.i("on") != 0);
        if (ln.verb == "lr") { ref.lr = (float)ln.f("lr"); opt.set_lr(ref.lr); }
        if (ln.verb == "loss") some_loss(crit, ln);
        if (ln.verb == "evaluate") {
            std::map<std::string, bool> was;
            for (auto& kv : run->m.params()) was[kv.first] = kv.second.is_trainable();
            Snap before = snapshot(run->m);
            run->m.train(false);
            run->forward(ln.u("salt"), 1);
            std::string d = snap_diff(before, snapshot(run->m));
            if (!d.empty()) sim::violation("wrong-step", "an evaluation changed %s", d.c_str());
            for (auto& kv : run->m.params()) kv.second.train(was[kv.first]);
        }
        if (ln.verb == "ckpt") {
            dw::save_state(run->m.state(), path);
            saved = snapshot(run->m);
            have_ckpt = true;
            sim::count("checkpoints");
        }
        if (ln.verb == "crash") {          // everything in memory is gone; only the checkpoint survives
            if (!have_ckpt) continue;
            opt = AnyOpt();
            run.reset(new ModelRun(n, build_model(n), "wrong-step"));
            fill_state(run->m, 4711, 1);
            dw::load_state(run->m.state(), path);
            std::string d = snap_diff(saved, snapshot(run->m));
            if (!d.empty()) sim::violation("wrong-step", "after restart from the checkpoint: %s", d.c_str());
            float lr = ref.lr;
            ref = base;
            ref.lr = lr;
            opt = AnyOpt(ref, run->m.params(), v->i("defaults") != 0);
            sim::count("fault: restart from checkpoint");
        }
    }
    sim::count("training histories");
}
static Register reg({"C11", gen, exec, false});
