// C12: a model computes its layer graph, for every graph shape, build order and execution order.
#include "exec.hpp"

static Plan gen(uint64_t seed) {
    sim::Rng r(seed * 1000003 + 112);
    Plan p;
    p.prop = "C12";
    p.seed = seed;
    p.env = r.next() >> 8;
    random_sched(p, r, 4);
    NetOpts o;
    o.dag = r.chance(0.9);
    o.max_inputs = r.chance(0.5) ? 3 : 1;
    o.max_layers = r.chance(0.15) ? 16 : 9;
    o.min_layers = 2;
    o.p4d = 0.45;
    if (r.chance(0.07)) { o.big = 1; o.max_layers = 6; }
    o.bn = r.chance(0.6);
    Net n = gen_net(r, o);
    p.cfg("variant").set("fill", r.next() >> 8).set("perm", r.chance(0.8) ? r.next() >> 8 : 0);
    net_to_plan(n, p);
    int k = r.range(1, 6);
    for (int i = 0; i < k; ++i) {
        int c = r.below(10);
        if (c < 5) p.op("forward").set("salt", r.next() >> 8);
        if (c >= 3 && c < 8) p.op("backward").set("salt", r.next() >> 8);
        if (c == 8) p.op("mode").set("on", r.chance(0.5) ? 1 : 0);
        if (r.chance(0.12)) p.op("compile");
        if (r.chance(0.15)) p.op("sub").set("value", r.unit()).set("salt", r.next() >> 8).set("train", r.chance(0.3) ? 1 : 0);
        if (r.chance(0.15)) p.op("second").set("salt", r.next() >> 8).set("bwd", r.chance(0.5) ? 1 : 0);
        if (c == 9) p.op("freeze").set("layer", (int)r.below((uint32_t)n.L.size())).set("on", r.chance(0.3) ? 1 : 0);
    }
    p.op("forward").set("salt", r.next() >> 8);
    p.op("backward").set("salt", r.next() >> 8);
    return p;
}
static void exec(const Plan& p) {
    Net n = net_from_plan(p);
    if (n.L.empty()) return;
    const Line* v = p.find("variant");
    sim::phase("building the model");
    std::map<int, dw::Placeholder> ph;
    ModelRun run(n, build_model(n, v->u("perm"), &ph), "wrong-result");
    std::unique_ptr<ModelRun> other;
    // what the model says about itself
    auto& m = run.m;
    if ((int)m.inputs().size() != n.nin() || m.outputs().size() != n.outs.size()) sim::violation("wrong-graph", "model has %zu inputs and %zu outputs", m.inputs().size(), m.outputs().size());
    for (int i = 0; i < n.nin(); ++i) if (Shp(m.inputs()[i].shape()) != n.ins[i]) sim::violation("wrong-graph", "shape of input %d", i);
    for (size_t i = 0; i < n.outs.size(); ++i) if (Shp(m.outputs()[i].shape()) != n.shapes[n.outs[i]]) sim::violation("wrong-graph", "shape of output %zu", i);
    if (m.layers().size() != n.L.size()) sim::violation("wrong-graph", "model of %zu layers lists %zu layers", n.L.size(), m.layers().size());
    size_t np = 0, nb = 0;
    for (size_t i = 0; i < n.L.size(); ++i) {
        for (auto& q : param_shapes(n.L[i], n.shapes[n.L[i].in[0]])) {
            ++np;
            auto it = m.params().find(n.L[i].name + "." + q.first);
            if (it == m.params().end() || Shp(it->second.data().shape()) != q.second) sim::violation("wrong-graph", "parameter %s.%s missing or misshaped", n.L[i].name.c_str(), q.first.c_str());
        }
        nb += buffer_shapes(n.L[i], n.shapes[n.L[i].in[0]]).size();
    }
    if (m.params().size() != np) sim::violation("wrong-graph", "%zu parameters instead of %zu", m.params().size(), np);
    if (m.state().size() != np + nb) sim::violation("wrong-graph", "%zu state entries instead of %zu", m.state().size(), np + nb);
    fill_state(m, v->u("fill"), 0.7f);
    for (auto& ln : p.lines) {
        if (ln.verb == "forward") run.forward(ln.u("salt"), 1);
        if (ln.verb == "backward") run.backward(ln.u("salt"), 1);
        if (ln.verb == "compile") {
            Snap a = snapshot(m);
            m.compile();
            run.have = false;
            std::string w = snap_diff(a, snapshot(m));
            if (!w.empty()) sim::violation("wrong-result", "compiling again changed %s", w.c_str());
            sim::count("recompilations");
        }
        if (ln.verb == "sub") {            // a second model over the same placeholders: it shares layers and parameters
            std::vector<int> ids;
            Net s = sub_net(n, n.vid((int)(ln.f("value") * n.L.size()) % (int)n.L.size()), ids);
            dw::Placeholders I, O{ph.at(ids[s.outs[0]])};
            for (int i = 0; i < s.nin(); ++i) I.push_back(ph.at(ids[i]));
            ModelRun part(s, dw::Model(I, O), "wrong-result");
            part.forward(ln.u("salt"), 1);
            if (ln.i("train")) part.backward(ln.u("salt"), 1);
            sim::count("models that share layers");
        }
        if (ln.verb == "second") {         // another model of the same structure, with parameters of its own
            if (!other) { other.reset(new ModelRun(n, build_model(n, ln.u("salt")), "wrong-result")); fill_state(other->m, ln.u("salt"), 0.6f); }
            other->forward(ln.u("salt"), 1);
            if (ln.i("bwd")) other->backward(ln.u("salt"), 1);
            sim::count("passes of a second model");
        }
        if (ln.verb == "mode") m.train(ln.i("on") != 0);
        if (ln.verb == "freeze" && ln.i("layer") < (int)n.L.size()) set_mode(m, n.L[ln.i("layer")].name, ln.i("on") != 0);
        check_races();
    }
    int fan = 0, adds = 0;
    for (auto& l : n.L) if (l.type == "Add") { ++adds; if (l.in[0] == l.in[1]) sim::count("graphs with Add(x,x)"); }
    std::vector<int> uses(n.shapes.size(), 0);
    for (auto& l : n.L) for (int k = 0; k < arity(l); ++k) ++uses[l.in[k]];
    for (int u : uses) if (u > 1) ++fan;
    if (fan) sim::count("graphs with fan-out");
    if (adds) sim::count("graphs with joins");
    if (n.outs.size() > 1) sim::count("graphs with several outputs");
    if (n.nin() > 1) sim::count("graphs with several inputs");
    sim::count("graphs");
}
static Register reg({"C12", gen, exec, false});
