// C03 fidelity of save and load, C04 saves that return are complete, C05 loads refuse incomplete files.
#include "ser.hpp"
#include <cerrno>
#include <unistd.h>

// The things that can be saved, and how.
static const char* kWhat[] = {"model", "state", "cfg", "state-stream", "cfg-stream", "both-stream", "multi-stream"};
static void save_as(const std::string& what, dw::Model& m, const std::string& path, int pre) {
    if (what == "model") dw::save(m, path);
    else if (what == "state") dw::save_state(m.state(), path);
    else if (what == "cfg") dw::save_cfg(m.cfg(), path);
    else if (what == "dot") dw::save_dot(m.cfg(), path);
    else {
        std::ofstream f(path, std::ios::out | std::ios::binary);
        if (pre) f.write("user data in front of it ", pre % 25);
        if (what == "state-stream") dw::save_state(m.state(), f);
        else if (what == "cfg-stream") dw::save_cfg(m.cfg(), f);
        else if (what == "both-stream") { dw::save_cfg(m.cfg(), f); dw::save_state(m.state(), f); }
        else { dw::save_state(m.state(), f); dw::save_cfg(m.cfg(), f); dw::save_state(m.state(), f); }
    }
}
struct Loaded {
    bool has_cfg = false, has_state = false, is_model = false;
    dw::Model::Config cfg;
    dw::Model m;               // carries the loaded state
};
// into: a model to load a bare state into
static Loaded load_as(const std::string& what, const std::string& path, int pre, dw::Model into) {
    Loaded r;
    r.m = into;
    if (what == "model") { r.m = dw::load(path); r.is_model = r.has_state = true; return r; }
    if (what == "state") { dw::load_state(r.m.state(), path); r.has_state = true; return r; }
    if (what == "cfg") { r.cfg = dw::load_cfg(path); r.has_cfg = true; return r; }
    std::ifstream f(path, std::ios::in | std::ios::binary);
    if (pre) { char b[32]; f.read(b, pre % 25); }
    if (what == "state-stream") { dw::load_state(r.m.state(), f); r.has_state = true; }
    else if (what == "cfg-stream") { r.cfg = dw::load_cfg(f); r.has_cfg = true; }
    else if (what == "both-stream") {
        r.cfg = dw::load_cfg(f);
        r.m = dw::Model::Build(r.cfg);
        dw::load_state(r.m.state(), f);
        r.has_cfg = r.has_state = r.is_model = true;
    } else {
        dw::load_state(r.m.state(), f);
        r.cfg = dw::load_cfg(f);
        fill_state(r.m, 77, 1);
        dw::load_state(r.m.state(), f);
        r.has_cfg = r.has_state = true;
    }
    return r;
}
static void fill_target(dw::Model& m) {
    std::map<std::string, dw::Tensor> s(m.state().begin(), m.state().end());
    for (auto& kv : s) for (size_t i = 0; i < kv.second.total(); ++i) kv.second.data()[i] = 1234.5f;
}
// Compare a loaded thing with the description of what was saved.  Empty when the same.
static std::string compare(Loaded& l, const Desc& d, uint64_t salt, bool run) {
    if (l.has_cfg) {
        std::string t = cfg_text(l.cfg);
        if (t != d.structure) return "the configuration differs:\n" + t + "--- saved:\n" + d.structure;
    }
    if (l.is_model) {
        std::string t = cfg_text(l.m.cfg());
        if (t != d.structure) return "the structure differs:\n" + t + "--- saved:\n" + d.structure;
    }
    if (l.has_state) {
        std::string t = snap_diff(d.state, snapshot(l.m));
        if (!t.empty()) return "state differs: " + t;
    }
    if (l.has_cfg && !l.is_model && run) {          // a model built from it accepts the state
        dw::Model b = dw::Model::Build(l.cfg);
        for (auto& kv : d.state) {
            auto it = b.state().find(kv.first);
            if (it == b.state().end() || it->second.total() != kv.second.size()) return "a model built from the configuration has no " + kv.first;
            memcpy(it->second.data(), kv.second.data(), kv.second.size() * 4);
        }
        l.m = b;
        l.is_model = l.has_state = true;
    }
    if (l.is_model && l.has_state && run) {
        l.m.compile();
        std::string t = out_diff(d.out, eval_out(l.m, salt));
        if (!t.empty()) return "evaluation differs: " + t;
    }
    return "";
}
static Desc describe(dw::Model& m, uint64_t salt) {
    Desc d;
    d.structure = cfg_text(m.cfg());
    d.out = eval_out(m, salt);
    d.state = snapshot(m);
    return d;
}
// through the board
static void put(const Desc& d) {
    std::string o;
    auto u = [&](uint64_t x) { o.append((char*)&x, 8); };
    auto s = [&](const std::string& x) { u(x.size()); o += x; };
    auto f = [&](const std::vector<float>& x) { u(x.size()); o.append((const char*)x.data(), x.size() * 4); };
    s(d.structure);
    u(d.state.size());
    for (auto& kv : d.state) { s(kv.first); f(kv.second); }
    u(d.out.size());
    for (auto& x : d.out) f(x);
    if (o.size() + 8 > kBoard) sim::violation("harness", "board too small");
    uint64_t n = o.size();
    memcpy(g_board + 8, o.data(), n);
    memcpy(g_board, &n, 8);
}
static Desc get() {
    Desc d;
    char* p = g_board + 8;
    auto u = [&] { uint64_t x; memcpy(&x, p, 8); p += 8; return x; };
    auto s = [&] { uint64_t n = u(); std::string x(p, n); p += n; return x; };
    auto f = [&] { uint64_t n = u(); std::vector<float> x(n); memcpy(x.data(), p, n * 4); p += n * 4; return x; };
    d.structure = s();
    for (uint64_t n = u(); n--;) { std::string k = s(); d.state[k] = f(); }
    for (uint64_t n = u(); n--;) d.out.push_back(f());
    return d;
}
static std::string file_of(const Line& ln) { return std::string(scratch_dir()) + "/f" + std::to_string(ln.i("file")); }
static Net some_net(sim::Rng& r, Plan& p, bool odd) {
    NetOpts o;
    o.dag = r.chance(0.6);
    o.max_layers = r.chance(0.1) ? 14 : 6;
    o.max_inputs = r.chance(0.5) ? 3 : 1;
    o.dropout = r.chance(0.4);
    o.odd_names = odd && r.chance(0.6);
    o.named = r.chance(0.8);
    o.big = r.chance(0.3) ? 1 : 0;
    Net n = gen_net(r, o);
    int extreme = (int)r.below(500);
    if (extreme < 3) {                 // sizes beyond the range of small integer types
        LSpec l;
        l.in[0] = 0;
        if (extreme == 1) {
            n = Net();
            n.ins = {{1, r.range(65537, 70000)}};
            l.type = r.chance(0.5) ? "BatchNorm1D" : "ReLU";
            l.name = "wide";
            n.L.push_back(l);
        } else if (extreme == 2) {
            n = Net();
            n.ins = {{r.range(1, 2), r.range(1, 3)}};
            int k = r.range(257, 300);
            for (int i = 0; i < k; ++i) {
                l.type = r.chance(0.9) ? "ReLU" : "Linear";
                l.units = r.range(1, 3);
                l.name = o.named ? "c" + std::to_string(i) : "";
                l.in[0] = i;
                n.L.push_back(l);
            }
        } else if (o.named) n.L[r.below((uint32_t)n.L.size())].name = std::string((size_t)r.range(65530, 66000), (char)r.range(97, 122)) + "!";
        n.resolve();
    }
    p.cfg("variant").set("fill", r.next() >> 8).set("named", o.named ? 1 : 0);
    net_to_plan(n, p);
    return n;
}
// The same names for every build of an unnamed net are only given when the layers are created alike.
static dw::Model target(const Net& n, const dw::Model* like) {
    if (like) return dw::Model::Build(like->cfg());
    return build_model(n);
}

// ---------------------------------------------------------------- C03
static Plan gen3(uint64_t seed) {
    sim::Rng r(seed * 1000003 + 103);
    Plan p;
    p.prop = "C03";
    p.seed = seed;
    p.env = r.next() >> 8;
    random_sched(p, r, 4);
    some_net(r, p, true);
    int k = r.range(1, 4);
    for (int i = 0; i < k; ++i) {
        if (r.chance(0.4)) p.op("work").set("salt", r.next() >> 8).set("n", r.range(1, 3));
        if (r.chance(0.25)) p.op("odd").set("salt", r.next() >> 8);
        if (r.chance(0.2)) p.op("freeze").set("salt", r.next() >> 8);
        Line& l = p.op("trip").set("what", std::string(kWhat[r.below(7)])).set("file", (int)r.below(2)).set("pre", (int)r.below(3) * 7).set("salt", (int)r.below(1000));
        l.set("chain", r.chance(0.4) ? 1 : 0);
        p.fault("benign").set("seed", r.next() >> 8).set("short", r.chance(0.7) ? r.unit() : 0.0).set("eintr", r.chance(0.4) ? r.unit() * 0.6 : 0.0);
        if (r.chance(0.5)) p.op("other").set("what", std::string(kWhat[r.below(7)])).set("file", 2).set("pre", (int)r.below(3) * 7).set("salt", (int)r.below(1000));
    }
    return p;
}
static void exec3(const Plan& p) {
    const Line* v = p.find("variant");
    Net n = net_from_plan(p);
    if (!v || n.L.empty()) return;
    bool pending = false;
    Line last;
    uint64_t last_salt = 0;
    // first process
    run_process(p, 0, [&] {
        dw::Model m = build_model(n);
        m.compile();
        fill_state(m, v->u("fill"), 0.7f);
        std::vector<const Line*> todo;
        sim::IoBenign b;
        bool odd = false;
        for (size_t i = 0; i < p.lines.size(); ++i) {
            const Line& ln = p.lines[i];
            sim::phase("%s %s", ln.verb.c_str(), ln.s("what").c_str());
            if (ln.verb == "work" && numel(n.ins[0]) < 65536) {      // a backward pass through a wide BatchNorm takes minutes
                m.train(true);
                for (int k = 0; k < ln.i("n"); ++k) {
                    std::vector<dw::Tensor> x, y, g;
                    int q = 0;
                    for (auto& s : m.inputs()) x.push_back(make_tensor(s.shape(), ln.u("salt") + k * 7 + q++));
                    for (auto& s : m.outputs()) { y.emplace_back(s.shape()); g.push_back(make_tensor(s.shape(), ln.u("salt") + 99, 0.1f)); }
                    m.forward(x, y);
                    m.backward(x, y, g);
                    dw::optimizer::SGD o(m.params(), 0.01f);
                    o.step();
                }
            }
            if (ln.verb == "odd") { odd_bits(m, ln.u("salt")); odd = true; }
            if (ln.verb == "freeze") {
                std::map<std::string, bool> names;
                for (auto& kv : m.params()) names[kv.first] = 1;
                sim::Rng r(ln.u("salt"));
                for (auto& kv : names) if (r.chance(0.5)) m.params().at(kv.first).train(false);
            }
            if (ln.verb == "trip" || ln.verb == "other") {
                b = {};
                if (i + 1 < p.lines.size() && p.lines[i + 1].verb == "benign") {
                    const Line& f = p.lines[i + 1];
                    b.seed = f.u("seed");
                    b.p_short = f.f("short");
                    b.p_eintr = f.f("eintr");
                }
                std::string what = ln.s("what");
                uint64_t salt = ln.u("salt");
                Desc d = describe(m, salt);
                sim::io_arm({}, b);
                save_as(what, m, file_of(ln), (int)ln.i("pre"));
                std::string ch = snap_diff(d.state, snapshot(m));
                if (!ch.empty()) sim::violation("infidelity", "saving changed %s", ch.c_str());
                if (ln.verb == "other") { sim::io_disarm(); put(d); uint64_t one = i + 1; memcpy(g_board + kBoard - 8, &one, 8); break; }
                dw::Model into = target(n, &m);
                fill_target(into);
                Loaded l = load_as(what, file_of(ln), (int)ln.i("pre"), into);
                sim::io_disarm();
                std::string w = compare(l, d, salt, true);
                if (!w.empty()) sim::violation("infidelity", "%s: %s", what.c_str(), w.c_str());
                sim::hash_u64(name_hash(d.structure));
                for (auto& kv : d.state) sim::hash_bytes(kv.second.data(), kv.second.size() * 4);
                sim::count("round trips");
                if (odd) sim::count("round trips with odd bit patterns");
                if (ln.i("chain") && l.is_model) m = l.m;         // go on with the loaded model
            }
        }
        if (sim::io_open_handles()) sim::violation("infidelity", "%d files left open", sim::io_open_handles());
    });
    uint64_t at;
    memcpy(&at, g_board + kBoard - 8, 8);
    memset(g_board + kBoard - 8, 0, 8);
    if (!at) return;
    // the machine goes on with another process
    const Line& ln = p.lines[at - 1];
    run_process(p, 1, [&] {
        Desc d = get();
        std::string what = ln.s("what");
        sim::phase("load %s in another process", what.c_str());
        dw::Model into = build_model(n);
        if (!v->i("named") && what.find("cfg") == std::string::npos && what != "model" && what != "both-stream") {
            // generated names may depend on the traversal order of that process: take the saved ones
            if (into.state().size() != d.state.size()) sim::violation("infidelity", "same code, another process: another set of parameters");
            bool same = true;
            for (auto& kv : d.state) same &= into.state().count(kv.first) != 0 && into.state().at(kv.first).total() == kv.second.size();
            if (!same) { sim::count("generated names differ between processes"); return; }
            if (snap_diff(d.state, snapshot(into)).empty()) return;
        }
        fill_target(into);
        Loaded l = load_as(what, file_of(ln), (int)ln.i("pre"), into);
        std::string w = compare(l, d, ln.u("salt"), true);
        if (!w.empty()) sim::violation("infidelity", "%s in another process: %s", what.c_str(), w.c_str());
        sim::count("cross-process loads");
    });
}
static Register reg3({"C03", gen3, exec3, true});

static const char* const kRare[] = {"rename", "sync", "seek"};     // calls another way of saving would make

// ---------------------------------------------------------------- C04
static Plan gen4(uint64_t seed) {
    sim::Rng r(seed * 1000003 + 104);
    Plan p;
    p.prop = "C04";
    p.seed = seed;
    p.env = r.next() >> 8;
    some_net(r, p, true);
    int k = r.range(1, 5);
    static const char* ops[] = {"write", "write", "write", "write", "open", "close"};
    static const int errs[] = {ENOSPC, EIO, EDQUOT, EFBIG, EACCES, EMFILE, ENOENT, EROFS};
    for (int i = 0; i < k; ++i) {
        p.op("save").set("what", r.chance(0.06) ? std::string("dot") : std::string(kWhat[r.below(7)])).set("file", (int)r.below(2)).set("pre", (int)r.below(3) * 7).set("salt", (int)r.below(1000));
        if (r.chance(0.85)) {
            std::string op = r.chance(0.07) ? kRare[r.below(3)] : ops[r.below(6)];
            int e = op == "open" ? errs[4 + r.below(4)] : errs[r.below(4)];
            p.fault("io").set("op", op).set("at", r.chance(0.25) ? 1.0 : r.unit()).set("err", e).set("sticky", r.chance(0.6) ? 1 : 0).set("part", r.chance(0.4) ? r.unit() : 0.0);
        }
        if (r.chance(0.4)) p.fault("benign").set("seed", r.next() >> 8).set("short", r.unit() * 0.8).set("eintr", r.chance(0.5) ? r.unit() * 0.5 : 0.0);
        if (r.chance(0.3)) p.op("change").set("salt", r.next() >> 8);
    }
    return p;
}
static void exec4(const Plan& p) {
    const Line* v = p.find("variant");
    Net n = net_from_plan(p);
    if (!v || n.L.empty()) return;
    dw::Model m = build_model(n);
    m.compile();
    fill_state(m, v->u("fill"), 0.7f);
    for (size_t i = 0; i < p.lines.size(); ++i) {
        const Line& ln = p.lines[i];
        if (ln.verb == "change") fill_state(m, ln.u("salt"), 1);
        if (ln.verb != "save") continue;
        std::string what = ln.s("what"), file = file_of(ln);
        int pre = (int)ln.i("pre");
        uint64_t salt = ln.u("salt");
        Desc d = describe(m, salt);
        sim::IoBenign b;
        const Line* fl = nullptr;
        for (size_t j = i + 1; j < p.lines.size() && p.lines[j].kind == "fault"; ++j) {
            if (p.lines[j].verb == "io") fl = &p.lines[j];
            if (p.lines[j].verb == "benign") { b.seed = p.lines[j].u("seed"); b.p_short = p.lines[j].f("short"); b.p_eintr = p.lines[j].f("eintr"); }
        }
        // pilot: how many calls of each kind does this save make?
        sim::phase("pilot save %s", what.c_str());
        sim::io_arm({}, b);
        save_as(what, m, std::string(scratch_dir()) + "/pilot", pre);
        sim::IoCounts c = sim::io_disarm();
        std::vector<sim::IoFault> fs;
        sim::IoFault f;
        if (fl) {
            f.op = io_op(fl->s("op"));
            long cnt = c.n[(int)f.op];
            f.index = (long)(fl->f("at") * cnt);
            if (f.index >= cnt) f.index = cnt - 1;
            f.err = (int)fl->i("err");
            f.sticky = fl->i("sticky") != 0;
            f.part = fl->f("part");
            fs.push_back(f);
        }
        sim::phase("save %s", what.c_str());
        sim::io_arm(fs, b);
        bool threw = false;
        std::string why;
        try {
            save_as(what, m, file, pre);
        } catch (const std::exception& e) { threw = true; why = e.what(); }
        c = sim::io_disarm();
        sim::hash_u64(threw * 2 + (c.hard > 0));
        std::string ch = snap_diff(d.state, snapshot(m));
        if (!ch.empty()) sim::violation("lost-save", "saving changed %s", ch.c_str());
        if (threw && !c.hard) sim::violation("lost-save", "saving %s threw although nothing failed: %s", what.c_str(), why.c_str());
        if (!threw) {
            bool must = c.hard && f.op != sim::IoOp::SYNC && (f.op != sim::IoOp::WRITE || f.sticky);
            if (must && what.find("stream") == std::string::npos)
                sim::violation("lost-save", "saving %s returned although %s failed with errno %d", what.c_str(), fl->s("op").c_str(), f.err);
            // the stream of the caller is closed by the caller
            if (must && f.op != sim::IoOp::CLOSE) sim::violation("lost-save", "saving %s returned although %s failed with errno %d", what.c_str(), fl->s("op").c_str(), f.err);
            if (what == "dot") { if (c.hard && slurp(file) != slurp(std::string(scratch_dir()) + "/pilot")) sim::violation("lost-save", "save_dot returned without writing the file"); continue; }
            sim::phase("load %s after a save that returned", what.c_str());
            dw::Model into = target(n, &m);
            fill_target(into);
            std::string w;
            try {
                Loaded l = load_as(what, file, pre, into);
                w = compare(l, d, salt, false);
            } catch (const std::exception& e) { w = std::string("loading throws: ") + e.what(); }
            if (!w.empty()) sim::violation("lost-save", "saving %s returned, but the file does not hold it: %s", what.c_str(), w.c_str());
            sim::count(c.hard ? "saves that survived a failure" : "complete saves");
        } else sim::count("failed saves reported");
        if (threw) {          // the disk is healthy again
            sim::phase("save %s again", what.c_str());
            save_as(what, m, file, pre);
            if (what != "dot") {
                dw::Model into = target(n, &m);
                fill_target(into);
                Loaded l = load_as(what, file, pre, into);
                std::string w = compare(l, d, salt, false);
                if (!w.empty()) sim::violation("lost-save", "saving %s after a failed save: %s", what.c_str(), w.c_str());
            }
        }
        if (sim::io_open_handles()) sim::violation("lost-save", "%d files left open", sim::io_open_handles());
    }
    sim::count("histories");
}
static Register reg4({"C04", gen4, exec4, false});

// ---------------------------------------------------------------- C05
static Plan gen5(uint64_t seed) {
    sim::Rng r(seed * 1000003 + 105);
    Plan p;
    p.prop = "C05";
    p.seed = seed;
    p.env = r.next() >> 8;
    some_net(r, p, r.chance(0.3));
    p.op("first").set("salt", (int)r.below(1000));
    if (r.chance(0.3)) {      // the saving process dies
        p.op("save").set("what", std::string(kWhat[r.below(7)])).set("file", 0).set("pre", (int)r.below(3) * 7).set("over", r.chance(0.5) ? 1 : 0);
        static const char* ops[] = {"write", "write", "write", "open", "close"};
        p.fault("kill").set("op", std::string(r.chance(0.07) ? kRare[r.below(3)] : ops[r.below(5)])).set("at", r.unit()).set("part", r.chance(0.3) ? 0.0 : r.unit());
        if (r.chance(0.3)) p.fault("benign").set("seed", r.next() >> 8).set("short", r.unit() * 0.9).set("eintr", 0.0);
        return p;
    }
    int k = r.range(1, 6);
    static const int errs[] = {EIO, EIO, EACCES, EMFILE, ENOENT, ENOMEM};
    for (int i = 0; i < k; ++i) {
        Line& l = p.op("load").set("what", std::string(kWhat[r.below(7)])).set("file", (int)r.below(2)).set("pre", (int)r.below(3) * 7);
        int c = r.below(10);
        if (c < 4) p.fault("cut").set("at", r.unit()).set("near", r.chance(0.5) ? 1 : 0).set("off", r.range(-9, 9));
        else if (c < 6) p.fault("io").set("op", std::string("read")).set("at", r.unit()).set("err", EIO).set("sticky", r.chance(0.5) ? 1 : 0);
        else if (c == 6) p.fault("io").set("op", std::string("open")).set("at", 0.0).set("err", errs[2 + r.below(4)]).set("sticky", 1);
        else if (c == 7) p.fault("kind").set("as", std::string(kWhat[r.below(7)]));
        else if (c == 8) p.fault("misfit").set("how", (int)r.below(4)).set("salt", r.next() >> 8);
        else if (r.chance(0.5)) p.fault("gone").set("how", (int)r.below(4));
        (void)l;
        if (r.chance(0.4)) p.fault("benign").set("seed", r.next() >> 8).set("short", r.unit() * 0.9).set("eintr", r.chance(0.4) ? r.unit() * 0.5 : 0.0);
    }
    return p;
}
static std::string bare_kind(const std::string& w) { return w == "state-stream" ? "state" : w == "cfg-stream" ? "cfg" : w == "both-stream" ? "model" : w; }
static void exec5(const Plan& p) {
    const Line* v = p.find("variant");
    Net n = net_from_plan(p);
    if (!v || n.L.empty()) return;
    const Line* sv = nullptr;
    for (auto& l : p.lines) if (l.verb == "save") sv = &l;
    auto fresh = [&] {
        dw::Model m = build_model(n);
        m.compile();
        fill_state(m, v->u("fill"), 0.7f);
        return m;
    };
    if (sv) {                                  // a crash while saving, then a restart
        std::string what = sv->s("what"), file = file_of(*sv), good = std::string(scratch_dir()) + "/good";
        int pre = (int)sv->i("pre");
        sim::IoBenign b;
        const Line* kl = nullptr;
        for (auto& l : p.lines) {
            if (l.verb == "kill") kl = &l;
            if (l.verb == "benign") { b.seed = l.u("seed"); b.p_short = l.f("short"); }
        }
        ProcEnd e = run_process(p, 0, [&] {
            dw::Model m = fresh();
            put(describe(m, 5));
            sim::phase("pilot save");
            sim::io_arm({}, b);
            save_as(what, m, good, pre);
            sim::IoCounts c = sim::io_disarm();
            if (sv->i("over")) {               // an older, longer file is there already
                std::string old = slurp(good);
                spit(file, old + old + old);
            }
            std::vector<sim::IoFault> fs;
            if (kl) {
                sim::IoFault f;
                f.op = io_op(kl->s("op"));
                f.index = (long)(kl->f("at") * c.n[(int)f.op]);
                f.kill = true;
                f.part = kl->f("part");
                fs.push_back(f);
            }
            sim::phase("save that is killed");
            sim::io_arm(fs, b);
            save_as(what, m, file, pre);
            sim::io_disarm();
        });
        sim::S->finished = 0;
        if (e.killed) sim::count("writers killed");
        run_process(p, 1, [&] {
            Desc d = get();
            std::string now = slurp(file), whole = slurp(good);
            // content of the file is in hash-table order of that process: same code, same order
            bool complete = now.size() == whole.size();
            sim::phase("load %s after the crash (%zu of %zu bytes)", what.c_str(), now.size(), whole.size());
            dw::Model into = fresh();
            fill_target(into);
            if (!v->i("named") && bare_kind(what) != "model" && bare_kind(what) != "cfg") return;
            bool threw = false;
            std::string why, w;
            try {
                Loaded l = load_as(what, file, pre, into);
                w = compare(l, d, 5, false);
            } catch (const std::exception& x) { threw = true; why = x.what(); }
            sim::hash_u64(threw + now.size() * 2);
            if (!threw && !w.empty() && now.size() <= whole.size()) sim::violation("silent-load", "loading %s after the writer was killed (%zu of %zu bytes written) returned, but %s", what.c_str(), now.size(), whole.size(), w.c_str());
            if (!threw && now.size() < whole.size()) sim::violation("silent-load", "loading %s accepted the %zu of %zu bytes a killed writer left", what.c_str(), now.size(), whole.size());
            if (threw && complete) sim::violation("silent-load", "loading the complete file threw: %s", why.c_str());
            sim::count(complete ? "complete files loaded" : "loads refused");
        });
        return;
    }
    run_process(p, 0, [&] {
        dw::Model m = fresh();
        uint64_t salt = p.find("first") ? p.find("first")->u("salt") : 1;
        Desc d = describe(m, salt);
        dw::Model into = target(n, &m);
        for (size_t i = 0; i < p.lines.size(); ++i) {
            const Line& ln = p.lines[i];
            if (ln.verb != "load") continue;
            std::string what = ln.s("what"), file = file_of(ln), as = what;
            int pre = (int)ln.i("pre");
            bool stream = what.find("stream") != std::string::npos;
            if (!stream) pre = 0;
            sim::IoBenign b;
            std::vector<sim::IoFault> fs;
            const Line *cut = nullptr, *io = nullptr, *kind = nullptr, *mis = nullptr, *gone = nullptr;
            for (size_t j = i + 1; j < p.lines.size() && p.lines[j].kind == "fault"; ++j) {
                const Line& l = p.lines[j];
                if (l.verb == "benign") { b.seed = l.u("seed"); b.p_short = l.f("short"); b.p_eintr = l.f("eintr"); }
                if (l.verb == "cut") cut = &l;
                if (l.verb == "io") io = &l;
                if (l.verb == "kind") kind = &l;
                if (l.verb == "misfit") mis = &l;
                if (l.verb == "gone") gone = &l;
            }
            sim::phase("save %s", what.c_str());
            save_as(what, m, file, pre);
            std::string whole = slurp(file);
            bool must_throw = false;
            std::string reason;
            fill_target(into);
            dw::Model to = into;
            if (cut) {
                size_t k = (size_t)(cut->f("at") * whole.size());
                if (cut->i("near")) {                  // around a place where a count or a name starts
                    std::vector<size_t> at;
                    for (size_t q = 0; q + 8 <= whole.size(); ++q) {
                        uint64_t x;
                        memcpy(&x, whole.data() + q, 8);
                        if (x > 0 && x < 400) at.push_back(q);
                    }
                    if (!at.empty()) k = at[(size_t)(cut->f("at") * at.size())];
                    long kk = (long)k + cut->i("off");
                    k = kk < 0 ? 0 : (size_t)kk;
                }
                if (k >= whole.size()) k = whole.size() - 1;
                spit(file, whole.substr(0, k));
                must_throw = true;
                reason = "the file is cut off after " + std::to_string(k) + " of " + std::to_string(whole.size()) + " bytes";
                sim::count("fault: file cut off");
            } else if (kind) {
                as = kind->s("as");
                std::string a = bare_kind(what), c = bare_kind(as);
                bool fits = a == c || (c == "cfg" && a == "model") || (c == "state" && a == "multi-stream");
                if (fits || pre || c == "multi-stream") { as = what; }
                else { must_throw = true; reason = "the file holds " + a + ", not " + c; sim::count("fault: file of another kind"); }
                if (as.find("stream") == std::string::npos) pre = 0;
            } else if (mis && d.state.size() && bare_kind(what) != "cfg" && bare_kind(what) != "model") {
                // another model: one entry renamed, missing or of another shape
                sim::Rng r(mis->u("salt"));
                dw::Model other = target(n, &m);
                fill_target(other);
                std::vector<std::string> names;
                for (auto& kv : d.state) names.push_back(kv.first);
                std::string victim = names[r.below((uint32_t)names.size())];
                auto& st = other.state();
                dw::Tensor t = st.at(victim);
                std::vector<int> s = t.shape();
                int how = (int)mis->i("how");
                if (how == 0) st.erase(victim);
                else if (how == 1) { st.erase(victim); st.emplace(victim + "x", t); }
                else if (how == 2) { s[r.below((uint32_t)s.size())] += 1; st.at(victim) = dw::Tensor(s); }
                else { s.push_back(1); st.at(victim) = dw::Tensor(s); }
                to = other;
                must_throw = true;
                reason = "entry " + victim + " does not fit the model";
                sim::count("fault: state of another model");
            } else if (gone) {
                must_throw = true;
                reason = "there is no such file";
                if (gone->i("how") == 0) unlink(file.c_str());
                else if (gone->i("how") == 1) { spit(file, ""); reason = "the file is empty"; }
                else if (gone->i("how") == 2) { file = scratch_dir(); reason = "it is a directory"; }
                else file = std::string(scratch_dir()) + "/no/such/dir";
                sim::count("fault: no file");
            } else if (io) {
                sim::phase("pilot load");
                dw::Model q = target(n, &m);
                sim::io_arm({}, b);
                load_as(what, file, pre, q);
                sim::IoCounts c = sim::io_disarm();
                sim::IoFault f;
                f.op = io_op(io->s("op"));
                f.index = (long)(io->f("at") * c.n[(int)f.op]);
                f.err = (int)io->i("err");
                f.sticky = io->i("sticky") != 0;
                fs.push_back(f);
            }
            sim::phase("load %s", as.c_str());
            bool threw = false;
            std::string why, w;
            sim::io_arm(fs, b);
            try {
                Loaded l = load_as(as, file, pre, to);
                sim::IoCounts c = sim::io_disarm();
                if (!must_throw) w = compare(l, d, salt, false);
            } catch (const std::exception& x) { threw = true; why = x.what(); }
            sim::IoCounts c = sim::io_disarm();
            if (c.withheld && (fs.size() && fs[0].sticky)) { must_throw = true; reason = "reading failed before the end of the file"; }
            if (c.hard && fs.size() && fs[0].op == sim::IoOp::OPEN) { must_throw = true; reason = "opening failed"; }
            sim::hash_u64(threw);
            if (!threw && must_throw) sim::violation("silent-load", "loading %s returned although %s", as.c_str(), reason.c_str());
            if (!threw && !w.empty()) sim::violation("silent-load", "loading %s returned, but %s", as.c_str(), w.c_str());
            if (threw && !must_throw && !c.hard) sim::violation("silent-load", "loading a complete file (%s) threw: %s", as.c_str(), why.c_str());
            sim::count(threw ? "loads refused" : "loads accepted");
            if (threw) {                       // a good file afterwards is accepted by the same objects
                sim::phase("load %s after a refused load", what.c_str());
                std::string f2 = std::string(scratch_dir()) + "/again";
                save_as(what, m, f2, 0);
                fill_target(into);
                Loaded l = load_as(what, f2, 0, into);
                w = compare(l, d, salt, false);
                if (!w.empty()) sim::violation("silent-load", "after a refused load: %s", w.c_str());
            }
            if (sim::io_open_handles()) sim::violation("silent-load", "%d files left open", sim::io_open_handles());
        }
        sim::count("histories");
    });
}
static Register reg5({"C05", gen5, exec5, true});
