// C13: evaluation mode is pure.
#include "exec.hpp"
#include "opt.hpp"
#include "proc.hpp"
#include <cstring>
#include <sys/wait.h>
#include <unistd.h>

static Plan gen(uint64_t seed) {
    sim::Rng r(seed * 1000003 + 113);
    Plan p;
    p.prop = "C13";
    p.seed = seed;
    p.env = r.next() >> 8;
    random_sched(p, r, 6);
    NetOpts o;
    o.dag = r.chance(0.4);
    o.max_layers = 7;
    o.max_inputs = r.chance(0.2) ? 2 : 1;
    o.big = r.chance(0.12);
    o.dropout = r.chance(0.8);
    Net n = gen_net(r, o);
    p.cfg("variant").set("fill", r.next() >> 8);
    net_to_plan(n, p);
    int k = r.range(3, 10);
    for (int i = 0; i < k; ++i) {
        int c = r.below(12);
        uint64_t salt = r.below(4) + 1;
        if (c < 4) p.op("eval").set("salt", salt);
        else if (c < 6) p.op("train").set("salt", r.next() >> 8).set("bwd", r.chance(0.5) ? 1 : 0);
        else if (c == 6) p.op("optstep").set("kind", (int)r.below(3));
        else if (c == 7) p.op("evalbwd").set("salt", salt);
        else if (c == 8) p.op("reload");
        else if (c == 9) p.op("other").set("salt", r.next() >> 8);
        else if (c == 10) p.op("toggle");
        else p.op("draws").set("salt", salt);
    }
    p.op("eval").set("salt", (int)r.below(4) + 1);
    return p;
}
static void exec(const Plan& p) {
    Net n = net_from_plan(p);
    if (n.L.empty()) return;
    auto fresh = [&] { return std::unique_ptr<ModelRun>(new ModelRun(n, build_model(n), "impure-evaluation")); };
    auto run = fresh();
    fill_state(run->m, p.find("variant")->u("fill"), 0.7f);
    // remembered outputs by input, valid while the state does not change
    std::map<uint64_t, std::vector<std::vector<float>>> seen;
    Snap state;
    auto eval = [&](uint64_t salt) {
        run->m.train(false);
        Snap before = snapshot(run->m);
        run->forward(salt, 1);
        std::string d = snap_diff(before, snapshot(run->m));
        if (!d.empty()) sim::violation("impure-evaluation", "a forward pass in evaluation mode changed %s", d.c_str());
        std::vector<std::vector<float>> o;
        for (auto& t : run->out) o.emplace_back(t.data(), t.data() + t.total());
        if (!snap_diff(state, before).empty()) { seen.clear(); state = before; }
        auto it = seen.find(salt);
        if (it == seen.end()) seen[salt] = o;
        else {
            for (size_t i = 0; i < o.size(); ++i)
                for (size_t j = 0; j < o[i].size(); ++j) {
                    float a = o[i][j], b = it->second[i][j], m = 0;
                    for (float x : it->second[i]) m = std::max(m, std::fabs(x));
                    if (!(std::fabs(a - b) <= 1e-4f * (std::fabs(b) + m))) sim::violation("impure-evaluation", "same input and state: output %zu[%zu] was %.9g and is now %.9g", i, j, b, a);
                }
            sim::count("repeated evaluations");
        }
        sim::count("evaluations");
    };
    for (auto& ln : p.lines) {
        sim::phase("%s", ln.verb.c_str());
        if (ln.verb == "eval") eval(ln.u("salt"));
        if (ln.verb == "train") {
            run->m.train(true);
            run->forward(ln.u("salt"), 1, false);
            if (ln.i("bwd")) {
                std::vector<dw::Tensor> g;
                for (auto& t : run->out) g.push_back(make_tensor(t.shape(), ln.u("salt") + 1));
                run->m.backward(run->in, run->out, g);
            }
        }
        if (ln.verb == "optstep" || ln.verb == "evalbwd") {
            run->m.train(false);
            Snap before = snapshot(run->m);
            if (ln.verb == "evalbwd") {
                run->forward(ln.u("salt"), 1);
                std::vector<dw::Tensor> g;
                for (auto& t : run->out) g.push_back(make_tensor(t.shape(), ln.u("salt") + 5));
                run->m.backward(run->in, run->out, g);
            } else {
                RefOpt r;
                r.kind = (int)ln.i("kind");
                AnyOpt o(r, run->m.params(), true);
                for (auto& kv : run->m.params()) fill(kv.second.grad().data(), kv.second.grad().total(), 99);
                o.step();
                o.step();
            }
            std::string d = snap_diff(before, snapshot(run->m));
            if (!d.empty()) sim::violation("impure-evaluation", "%s in evaluation mode changed %s", ln.verb == "optstep" ? "an optimizer step" : "forward and backward", d.c_str());
        }
        if (ln.verb == "reload") {
            run->m.train(false);
            std::string path = std::string(scratch_dir()) + "/m";
            dw::save_state(run->m.state(), path);
            auto two = fresh();
            dw::load_state(two->m.state(), path);
            Snap a = snapshot(run->m);
            run = std::move(two);
            run->m.train(false);
            std::string d = snap_diff(a, snapshot(run->m));
            if (!d.empty()) sim::violation("impure-evaluation", "restored from disk: %s", d.c_str());
        }
        if (ln.verb == "other") {            // unrelated work in between
            auto x = fresh();
            fill_state(x->m, ln.u("salt"), 1);
            x->m.train(true);
            x->forward(ln.u("salt"), 1, false);
        }
        if (ln.verb == "toggle") { run->m.train(true); run->m.train(false); }
        if (ln.verb == "draws") {
            run->m.train(false);
            run->inputs(ln.u("salt"), 1);
            int fd[2];
            if (pipe(fd)) continue;
            pid_t k = fork();                 // the same process without the evaluation
            if (k == 0) {
                dw::Tensor t = dw::Tensor::uniform({16});
                if (write(fd[1], t.data(), 64) != 64) _exit(1);
                _exit(0);
            }
            float want[16];
            bool ok = read(fd[0], want, 64) == 64;
            int st;
            waitpid(k, &st, 0);
            close(fd[0]);
            close(fd[1]);
            eval(ln.u("salt"));
            dw::Tensor t = dw::Tensor::uniform({16});
            if (ok && memcmp(want, t.data(), 64)) sim::violation("impure-evaluation", "a forward pass in evaluation mode drew random numbers");
            sim::count("random-stream twins");
        }
        check_races();
    }
    sim::count("histories");
}
static Register reg({"C13", gen, exec, false});
