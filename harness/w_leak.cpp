// C07: file operations that succeed or fail keep nothing.
#include "img.hpp"

static const char* kOps[] = {"image", "image", "image", "save", "save_state", "save_cfg", "load", "load_state", "load_cfg", "dot"};
static Plan gen(uint64_t seed) {
    sim::Rng r(seed * 1000003 + 107);
    Plan p;
    p.prop = "C07";
    p.seed = seed;
    p.env = r.next() >> 8;
    NetOpts o;
    o.max_layers = 4;
    o.dag = r.chance(0.5);
    o.max_inputs = 2;
    o.dropout = true;
    Net n = gen_net(r, o);
    net_to_plan(n, p);
    int k = r.range(1, 4);
    for (int i = 0; i < k; ++i) {
        std::string w = kOps[r.below(10)];
        Line& l = p.op("file");
        if (w == "image") img_gen(r, l, true, true);
        l.set("what", w);
        if (w == "image") continue;
        bool ld = w[0] == 'l';
        if (r.chance(0.65)) {
            static const int werr[] = {EIO, ENOSPC, EDQUOT}, oerr[] = {EMFILE, EACCES, ENOSPC};
            int c = r.below(10);
            if (c < 2) l.set("io", std::string("open")).set("at", 0).set("err", oerr[r.below(3)]);
            else if (c < 3) l.set("io", std::string("close")).set("at", 0).set("err", EIO);
            else l.set("io", std::string(ld ? "read" : "write")).set("at", (int)r.below(3)).set("err", ld ? EIO : werr[r.below(3)]).set("sticky", r.chance(0.5) ? 1 : 0).set("part", r.unit());
        }
        if (r.chance(0.2)) l.set("short", r.unit()).set("sseed", r.next() >> 8);
        if (ld && r.chance(0.5)) l.set("cut", r.unit());
        else if (ld && r.chance(0.15)) l.set("gone", 1);
        else if (ld && r.chance(0.15)) l.set("kind", 1);
        if (w == "load_state" && r.chance(0.3)) l.set("alien", 1);
    }
    return p;
}
static void exec(const Plan& p) {
    Net n = net_from_plan(p);
    if (n.L.empty()) return;
    std::string dir = scratch_dir(), file = dir + "/m";
    dw::Model m = build_model(n);
    fill_state(m, 5);
    std::string whole[3];
    dw::save(m, file);
    whole[0] = slurp(file);
    dw::save_state(m.state(), file);
    whole[1] = slurp(file);
    dw::save_cfg(m.cfg(), file);
    whole[2] = slurp(file);
    dw::Placeholder in{dw::Shape{2, 3}};
    dw::Model other(in, dw::Linear(2, "zz")(in));
    int handles = sim::io_open_handles();
    if (handles) sim::violation("leak", "%d files are still open after saving a model", handles);
    int no = 0;
    for (auto& l : p.lines) {
        if (l.verb != "file") continue;
        std::string w = l.s("what");
        Case k;
        if (w == "image") { k = img_case(l); if (k.skip) continue; }
        sim::phase("%s %d", w.c_str(), ++no);
        size_t live[5] = {0};
        bool threw = false;
        sim::IoCounts io{};
        for (int i = 0; i < 5; ++i) {
            if (w == "image") {
                Outcome o = img_read(l, k, "wrong-pixels");
                threw = o.threw;
                io = o.io;
                o = Outcome();
            } else {
                bool ld = w[0] == 'l';
                if (ld) {
                    int kind = w == "load" ? 0 : w == "load_state" ? 1 : 2;
                    if (l.i("kind")) kind = (kind + 1) % 3;
                    if (l.i("gone")) unlink(file.c_str());
                    else spit(file, l.has("cut") ? whole[kind].substr(0, (size_t)(l.f("cut") * whole[kind].size())) : whole[kind]);
                }
                std::vector<sim::IoFault> fs;
                if (l.has("io")) { sim::IoFault f; f.op = io_op(l.s("io")); f.index = l.i("at"); f.err = (int)l.i("err", EIO); f.sticky = l.i("sticky") != 0; f.part = l.f("part"); fs.push_back(f); }
                sim::IoBenign bn;
                bn.seed = l.u("sseed");
                bn.p_short = l.f("short");
                threw = false;
                sim::io_arm(fs, bn);
                try {
                    if (w == "save") dw::save(m, file);
                    else if (w == "save_state") dw::save_state(m.state(), file);
                    else if (w == "save_cfg") dw::save_cfg(m.cfg(), file);
                    else if (w == "dot") dw::save_dot(m.cfg(), file);
                    else if (w == "load") { dw::Model q = dw::load(file); }
                    else if (w == "load_state") dw::load_state(l.i("alien") ? other.state() : m.state(), file);
                    else { dw::Model::Config c = dw::load_cfg(file); }
                } catch (const std::exception&) { threw = true; }
                io = sim::io_disarm();
            }
            live[i] = sim::live_bytes();
            int h = sim::io_open_handles();
            if (h) sim::violation("leak", "%s %s and left %d file(s) open", w.c_str(), threw ? "failed" : "succeeded", h);
        }
        // the first rounds may fill caches; after that nothing may grow
        if (live[4] > live[3] && live[3] > live[2]) sim::violation("leak", "%s %s and keeps %zu bytes every time", w.c_str(), threw ? "fails" : "succeeds", live[4] - live[3]);
        sim::count(("op " + w).c_str());
        sim::count(threw ? "operations that failed" : "operations that succeeded");
        sim::hash_u64(threw);
    }
}
static Register reg({"C07", gen, exec, false});
