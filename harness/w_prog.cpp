// C23: a whole training program, as in samples/: images on disk, loader, model, loss, optimizer,
// checkpoints in two alternating files, evaluation, export, crashes and restarts.
#include "exec.hpp"
#include "img.hpp"
#include "opt.hpp"
#include "proc.hpp"
#include "ser.hpp"
#include "w_main.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <set>

namespace {
const char* const cls = "wrong-program";

// ---------------------------------------------------------------- the disk image of the data set
struct Sample { std::string path; std::vector<float> x; int label; };
struct Data {
    int w = 1, h = 1, c = 1, k = 2;
    bool flat = false;
    std::vector<Sample> s;
    Shp shape() const { return flat ? Shp{c * h * w} : Shp{c, h, w}; }
};
Data data_from(const Plan& p, bool write) {
    Data d;
    const Line* v = p.find("variant");
    d.w = (int)v->i("w", 1);
    d.h = (int)v->i("h", 1);
    d.c = (int)v->i("c", 1);
    d.k = (int)v->i("classes", 2);
    d.flat = v->i("flat") != 0;
    for (auto& l : p.lines) {
        if (l.verb != "sample") continue;
        Case k = img_case(l);
        Sample s;
        s.path = std::string(scratch_dir()) + "/s" + std::to_string(d.s.size()) + "." + l.s("fmt");
        s.label = (int)l.i("label") % d.k;
        const Img& g = k.want;
        if (g.w != d.w || g.h != d.h || g.c != d.c) sim::violation("harness", "sample of another geometry");
        s.x.resize(g.px.size());
        for (int q = 0; q < d.c; ++q)
            for (int i = 0; i < d.w * d.h; ++i) s.x[d.flat ? (size_t)i * d.c + q : (size_t)q * d.w * d.h + i] = (float)g.px[(size_t)i * d.c + q] / 255.f;
        if (write) spit(s.path, k.bytes);
        d.s.push_back(s);
    }
    return d;
}
struct ImageSet : dw::IDataset {
    const Data& d;
    dw::Tensor tmp;
    std::vector<int> log;
    explicit ImageSet(const Data& d) : d(d) {}
    size_t size() override { return d.s.size(); }
    OutShape shape() override { return {dw::Shape(d.shape()), dw::Shape{1}}; }
    void pull(int idx, dw::Tensor& X, dw::Tensor& y) override {
        if (idx < 0 || idx >= (int)d.s.size()) sim::violation(cls, "sample %d of a data set of %zu was requested", idx, d.s.size());
        dw::io::ReadImage(d.s[idx].path, X);
        if (!d.flat && d.c > 1) {
            if (tmp.shape() != X.shape()) tmp = dw::Tensor(X.shape());
            X.copyTo(tmp);
            size_t n = (size_t)d.w * d.h;
            for (size_t i = 0; i < n; ++i) for (int q = 0; q < d.c; ++q) X.data()[q * n + i] = tmp.data()[i * d.c + q];
        }
        for (size_t i = 0; i < X.total(); ++i) X.data()[i] /= 255.f;
        y.data()[0] = (float)d.s[idx].label;
        log.push_back(idx);
    }
};

// ---------------------------------------------------------------- what outlives a process
constexpr size_t kSnap = 2u << 20;
struct Record { int have; long gen, steps, pos; float lr; size_t len; char data[kSnap]; };
struct Slot { int pending; Record now, next; };         // next: the save that was under way
struct Board { long line; long gen; int made; Slot slot[2]; int exported; Record model; };
void put_snap(Record& r, const Snap& s) {
    char* p = r.data;
    char* end = r.data + kSnap;
    for (auto& kv : s) {
        uint32_t a = (uint32_t)kv.first.size(), b = (uint32_t)kv.second.size();
        if (p + 8 + a + 4 * (size_t)b > end) sim::violation("harness", "model too large");
        memcpy(p, &a, 4);
        memcpy(p + 4, &b, 4);
        memcpy(p + 8, kv.first.data(), a);
        memcpy(p + 8 + a, kv.second.data(), 4 * (size_t)b);
        p += 8 + a + 4 * (size_t)b;
    }
    r.len = p - r.data;
    r.have = 1;
}
Snap get_snap(const Record& r) {
    Snap s;
    for (const char* p = r.data; p < r.data + r.len;) {
        uint32_t a, b;
        memcpy(&a, p, 4);
        memcpy(&b, p + 4, 4);
        auto& v = s[std::string(p + 8, a)];
        v.resize(b);
        memcpy(v.data(), p + 8 + a, 4 * (size_t)b);
        p += 8 + a + 4 * (size_t)b;
    }
    return s;
}
Board* board() { static_assert(sizeof(Board) <= kBoard, "board"); return (Board*)g_board; }
std::string ckpt_path(int i) { return std::string(scratch_dir()) + "/ckpt" + std::to_string(i); }

struct Faults {
    const Line *io = nullptr, *oom = nullptr, *kill = nullptr, *benign = nullptr;
    void of(const Plan& p, size_t i) {
        for (size_t j = i + 1; j < p.lines.size() && p.lines[j].kind == "fault"; ++j) {
            const Line& l = p.lines[j];
            if (l.verb == "io") io = &l;
            if (l.verb == "oom") oom = &l;
            if (l.verb == "kill") kill = &l;
            if (l.verb == "benign") benign = &l;
        }
    }
    void arm(long ops) const {
        std::vector<sim::IoFault> fs;
        auto one = [&](const Line* l) {
            sim::IoFault f;
            f.op = io_op(l->s("op"));
            f.index = (long)(l->f("at") * ops);
            f.err = (int)l->i("err", EIO);
            f.sticky = l->i("sticky") != 0;
            f.part = l->f("part");
            f.kill = l == kill;
            fs.push_back(f);
        };
        if (io) one(io);
        if (kill) one(kill);
        sim::IoBenign b;
        if (benign) { b.seed = benign->u("seed"); b.p_short = benign->f("short"); b.p_eintr = benign->f("eintr"); }
        sim::io_arm(fs, b);
    }
};

// ---------------------------------------------------------------- the program
struct Program {
    const Plan& p;
    const Line* v;
    Net n;
    Data d;
    int B, K;
    bool shuffle, bn = false;
    std::shared_ptr<ImageSet> ds, vds;
    std::unique_ptr<dw::DataLoader> loader, val;
    std::unique_ptr<dw::Model> m;
    RefOpt base, ref;
    AnyOpt opt;
    dw::loss::CrossEntropyLoss crit;
    dw::Tensor X, Y, out, grad;
    std::set<std::string> frozen;
    long pos = 0;                        // batches of this epoch already delivered
    std::set<int> seen;                  // samples of this epoch
    int steps = 0;
    Program(const Plan& p, bool write) : p(p), v(p.find("variant")), n(net_from_plan(p)), d(data_from(p, write)) {
        B = n.ins[0][0];
        K = n.shapes[n.outs[0]].back();
        shuffle = v->i("shuffle") != 0;
        for (auto& l : n.L) bn |= l.type.rfind("BatchNorm", 0) == 0;
        base = ref = opt_from_line(*v);
    }
    int per_epoch() const { return (int)d.s.size() / B; }
    void start() {
        m.reset(new dw::Model(build_model(n)));
        m->compile();
        fill_state(*m, v->u("fill"), 0.35f);
        ds = std::make_shared<ImageSet>(d);
        vds = std::make_shared<ImageSet>(d);
        loader.reset(new dw::DataLoader(ds, B, shuffle));
        val.reset(new dw::DataLoader(vds, B, false));
        out = dw::Tensor(dw::Shape(n.shapes[n.outs[0]]));
        grad = dw::Tensor(dw::Shape(n.shapes[n.outs[0]]));
    }
    void optimizer() { opt = AnyOpt(ref, m->params(), v->i("defaults") != 0); }
    // Restart: the newest checkpoint that can be loaded; anything loaded must be complete.
    void resume() {
        Board* b = board();
        int ord[2] = {0, 1};
        auto newest = [&](int i) { return b->slot[i].pending ? b->slot[i].next.gen : b->slot[i].now.have ? b->slot[i].now.gen : -1; };
        if (newest(1) > newest(0)) std::swap(ord[0], ord[1]);
        for (int q = 0; q < 2; ++q) {
            Slot& s = b->slot[ord[q]];
            if (!s.pending && !s.now.have) continue;
            sim::phase("resume from checkpoint %d", ord[q]);
            std::string why;
            bool threw = false;
            try { dw::load_state(m->state(), ckpt_path(ord[q])); } catch (const std::exception& e) { threw = true; why = e.what(); }
            if (threw) {
                if (!s.pending) sim::violation(cls, "a checkpoint whose save returned cannot be loaded: %s", why.c_str());
                sim::count("unfinished checkpoints refused");
                continue;
            }
            Snap got = snapshot(*m);
            const Record* r = nullptr;
            if (s.pending && snap_diff(get_snap(s.next), got).empty()) r = &s.next;
            else if (s.now.have && snap_diff(get_snap(s.now), got).empty()) r = &s.now;
            if (!r)
                sim::violation(cls, "%s checkpoint %d was loaded without an exception, but %s", s.pending ? "unfinished" : "finished", ord[q],
                               snap_diff(get_snap(s.pending ? s.next : s.now), got).c_str());
            if (s.pending) { if (r != &s.now) s.now = *r; s.pending = 0; r = &s.now; }
            steps = (int)r->steps;
            ref.lr = r->lr;
            sim::count("restarts from a checkpoint");
            if (shuffle) { pos = 0; return; }
            for (long i = 0; i < r->pos; ++i) {                // back to where the epoch was
                if (!loader->pull(X, Y)) sim::violation(cls, "the epoch ended after %ld batches of %d while skipping", i, per_epoch());
                check_batch("skipped batch");
            }
            return;
        }
        fill_state(*m, v->u("fill"), 0.35f);
        sim::count("restarts from scratch");
    }
    void check_batch(const char* what) {
        size_t sx = numel(d.shape());
        if (X.total() != sx * B || Y.total() != (size_t)B) sim::violation(cls, "%s: the batch has %zu values and %zu labels", what, X.total(), Y.total());
        if ((int)ds->log.size() < B) sim::violation(cls, "%s: only %zu samples were read", what, ds->log.size());
        for (int i = 0; i < B; ++i) {
            int idx = ds->log[ds->log.size() - B + i];
            if (!shuffle && idx != pos * B + i) sim::violation(cls, "%s: row %d is sample %d, expected %ld", what, i, idx, pos * B + i);
            if (shuffle && i && std::count(ds->log.end() - B, ds->log.end() - B + i, idx)) sim::violation(cls, "%s: sample %d twice in a batch", what, idx);
            const Sample& s = d.s[idx];
            for (size_t j = 0; j < sx; ++j)
                if (std::fabs(X.data()[i * sx + j] - s.x[j]) > 1e-6f) sim::violation(cls, "%s: row %d element %zu is %.9g, sample %d has %.9g", what, i, j, X.data()[i * sx + j], idx, s.x[j]);
            if (Y.data()[i] != (float)s.label) sim::violation(cls, "%s: row %d has label %.9g, sample %d has %d", what, i, Y.data()[i], idx, s.label);
        }
        ds->log.clear();
        pos++;
    }
    bool oom(const Faults& f, const char* where) {
        if (!f.oom || f.oom->s("where") != where) return false;
        sim::alloc_arm({f.oom->i("index"), false});
        return true;
    }
    // Retried until it works: at most once more after the faults are over.
    template <typename F> void retry(const Faults& f, const char* where, F op) {
        bool armed = oom(f, where);
        try { op(); }
        catch (const std::exception& e) {
            long k = armed ? sim::alloc_failures() : 0;
            if (armed) sim::alloc_disarm();
            if (!k) sim::violation(cls, "%s threw although nothing failed: %s", where, e.what());
            sim::count("fault: allocation failed in the program");
            op();
            return;
        }
        if (armed) sim::alloc_disarm();
    }
    bool next_batch(const Faults& f) {
        bool more = false, armed = oom(f, "pull"), threw = false;
        std::string why;
        long ops = 3 * B;
        f.arm(ops);
        try { more = loader->pull(X, Y); } catch (const std::exception& e) { threw = true; why = e.what(); }
        sim::IoCounts c = sim::io_disarm();
        long k = armed ? sim::alloc_failures() : 0;
        if (armed) sim::alloc_disarm();
        if (threw) {
            if (!c.hard && !k) sim::violation(cls, "reading a batch threw although nothing failed: %s", why.c_str());
            sim::count("failed batches retried");
            ds->log.clear();
            more = loader->pull(X, Y);
        }
        bool want = pos < per_epoch();
        if (more != want) sim::violation(cls, want ? "the epoch ended after %ld of %d batches" : "a batch was delivered after the %ld. of %d", pos, per_epoch());
        if (!more) { pos = 0; ds->log.clear(); sim::count("program epochs"); return false; }
        check_batch("batch");
        return true;
    }
    void pass(const Faults& f, bool train, uint64_t salt) {
        DVec x = to_d(X);
        RefNet at(n);
        at.load(*m);
        Snap before = snapshot(*m);
        sim::phase("forward (step %d)", steps);
        std::vector<dw::Tensor> in{X}, res{out};
        auto fwd = [&] { if (salt % 2) m->forward(X, out); else m->forward(in, res); };
        if (bn && train) fwd(); else retry(f, "forward", fwd);
        PassRef pr = pass_reference(at, {x}, {}, false, salt);
        expect(cls, pr.obs, "out0", out, std::string(train ? "output of training step " : "output of evaluation after step ") + std::to_string(steps));
        for (auto& l : at.L)
            for (auto& bf : l.buf) {
                std::string key = l.sp.name + "." + bf.first;
                expect(cls, pr.obs, "buf:" + key, m->state().at(key), key + " after training step " + std::to_string(steps));
            }
        check_races();
        if (!train) { std::string w = snap_diff(before, snapshot(*m)); if (!w.empty()) sim::violation(cls, "evaluation changed %s", w.c_str()); return; }
        sim::phase("loss (step %d)", steps);
        checked_loss(crit, out, Y, grad, cls, "step " + std::to_string(steps));
        bool wild = false;
        for (size_t i = 0; i < grad.total(); ++i) wild |= !(std::fabs(grad.data()[i]) < 1e6f);
        if (wild) fill(grad.data(), grad.total(), salt, 1);
        sim::phase("backward (step %d)", steps);
        std::vector<dw::Tensor> go{grad};
        DVec g = to_d(grad);
        retry(f, "backward", [&] { if (salt % 2) m->backward(X, out, grad); else m->backward(in, res, go); });
        PassRef pb = pass_reference(at, {x}, {g}, true, salt);
        if (pb.kinky) sim::count("gradients undecided (kink)");
        else
            for (auto& l : at.L)
                for (auto& q : l.par) {
                    std::string key = l.sp.name + "." + q.first;
                    expect(cls, pb.obs, "grad:" + key, m->params().at(key).grad(), "gradient of " + key + " at step " + std::to_string(steps));
                }
        check_races();
        if (to_d(X) != x) sim::violation(cls, "a training step changed its input");
        sim::phase("optimizer (step %d)", steps);
        checked_step(opt, ref, m->params(), cls, ++steps);
        sim::count("program steps");
    }
    void evaluate(uint64_t salt) {
        m->train(false);
        Faults none;
        int k = 0, sure = 0, iters = 0;
        double acc = 0;
        bool tie = false;
        while (val->pull(X, Y)) {
            if (++iters > per_epoch()) sim::violation(cls, "the validation epoch does not end");
            std::swap(ds->log, vds->log);
            long keep = pos;
            bool sh = shuffle;
            pos = iters - 1;
            shuffle = false;
            check_batch("validation batch");
            shuffle = sh;
            pos = keep;
            std::swap(ds->log, vds->log);
            pass(none, false, salt + iters);
            acc += dw::metric::accuracy(out, Y);
            for (int i = 0; i < B; ++i) {
                const float* r = out.data() + (size_t)i * K;
                int best = 0;
                for (int q = 1; q < K; ++q) if (r[q] > r[best]) best = q;
                for (int q = 0; q < K; ++q) if (q != best && !(r[q] < r[best])) tie = true;
                k += best == (int)Y.data()[i];
                sure++;
            }
        }
        if (iters != per_epoch()) sim::violation(cls, "a validation epoch had %d batches of %d", iters, per_epoch());
        if (!tie && sure && std::fabs(acc / iters - (double)k / sure) > 1e-5) sim::violation(cls, "accuracy is %.9g, %d of %d predictions are right", acc / iters, k, sure);
        m->train(true);
        for (auto& l : frozen) set_mode(*m, l, false);
        sim::count("program evaluations");
    }
    void save(const Line& ln, const Faults& f) {
        Board* b = board();
        int i = (int)ln.i("file") & 1;
        Slot& s = b->slot[i];
        s.next.gen = ++b->gen;
        s.next.steps = steps;
        s.next.pos = pos;
        s.next.lr = ref.lr;
        put_snap(s.next, snapshot(*m));
        // until it is known how the save ended, the file may hold anything incomplete
        s.pending = 1;
        sim::phase("checkpoint");
        for (int k = 0; k < 2; ++k) {
            bool threw = false;
            std::string why;
            sim::IoCounts c{};
            if (!k) f.arm((long)m->state().size() * 8 + 2);
            try { dw::save_state(m->state(), ckpt_path(i)); } catch (const std::exception& e) { threw = true; why = e.what(); }
            if (!k) c = sim::io_disarm();
            if (threw && !c.hard) sim::violation(cls, "a checkpoint threw although nothing failed: %s", why.c_str());
            if (!threw) {
                s.now = s.next;
                s.pending = 0;
                sim::count(k ? "checkpoints retried" : "program checkpoints");
                break;
            }
            if (!k && ln.i("giveup")) {           // the save failed: the program throws the file away
                unlink(ckpt_path(i).c_str());
                s.pending = s.now.have = 0;
                sim::count("checkpoints given up");
                break;
            }
        }
        std::string w = snap_diff(get_snap(s.next), snapshot(*m));
        if (!w.empty()) sim::violation(cls, "a checkpoint changed %s", w.c_str());
    }
    void exprt() {
        Board* b = board();
        b->exported = 0;
        put_snap(b->model, snapshot(*m));
        sim::phase("export");
        dw::save(*m, std::string(scratch_dir()) + "/model");
        b->exported = 1;
    }
    // The other program of the samples: loads the exported model and evaluates it.
    void test() {
        Board* b = board();
        sim::phase("test run");
        m.reset(new dw::Model(dw::load(std::string(scratch_dir()) + "/model")));
        m->compile();
        std::string w = snap_diff(get_snap(b->model), snapshot(*m));
        if (!w.empty()) sim::violation(cls, "the exported model differs: %s", w.c_str());
        frozen.clear();
        evaluate(77);
        sim::count("test programs");
    }
    // Returns false when the process is to end.
    bool run() {
        Board* b = board();
        start();
        resume();
        optimizer();
        while (b->line < (long)p.lines.size()) {
            size_t i = (size_t)b->line++;
            const Line& ln = p.lines[i];
            Faults f;
            f.of(p, i);
            if (ln.verb == "step") {
                sim::phase("batch (step %d)", steps);
                bool more = next_batch(f);
                if (!more) { Faults none; if (!per_epoch() || !next_batch(none)) continue; }
                pass(f, true, ln.u("salt"));
            }
            if (ln.verb == "lr") { ref.lr = (float)ln.f("lr"); opt.set_lr(ref.lr); }
            if (ln.verb == "freeze")
                for (int q = 0; q < (int)n.L.size(); ++q) {
                    if (ln.i("layer") != q && ln.i("layer") != -1) continue;
                    const std::string& l = n.L[q].name;
                    set_mode(*m, l, ln.i("on") != 0);
                    if (ln.i("on")) frozen.erase(l); else frozen.insert(l);
                }
            if (ln.verb == "evaluate") evaluate(ln.u("salt"));
            if (ln.verb == "save") save(ln, f);
            if (ln.verb == "export") exprt();
            if (ln.verb == "crash") { sim::count("fault: process dies between operations"); return true; }
            if (sim::io_open_handles()) sim::violation(cls, "%d files left open", sim::io_open_handles());
        }
        return false;
    }
};

Plan gen(uint64_t seed) {
    sim::Rng r(seed * 1000003 + 123);
    Plan p;
    p.prop = "C23";
    p.seed = seed;
    p.env = r.next() >> 8;
    random_sched(p, r, 4);
    if (seed % 8 == 5) { gen_main(p, r); if (p.find("program")) return p; }
    bool defaults;
    RefOpt o = gen_opt(r, defaults);
    int w = r.range(1, 7), h = r.range(1, 7), c = r.chance(0.5) ? 1 : 3, k = r.range(2, 5), B = r.range(1, 5);
    int ns = B * r.range(1, 4) + (int)r.below((uint32_t)B);
    bool flat = r.chance(0.3);
    Line& v = p.cfg("variant").set("w", w).set("h", h).set("c", c).set("classes", k).set("flat", flat ? 1 : 0).set("shuffle", r.chance(0.35) ? 1 : 0).set("defaults", defaults ? 1 : 0).set("fill", r.next() >> 8);
    o.lr *= 0.3f;
    opt_to_line(o, v);
    for (int i = 0; i < ns; ++i) {
        Line& l = p.cfg("sample");
        bool png = r.chance(0.6);
        l.set("fmt", std::string(png ? "png" : r.chance(0.5) ? "jpg" : "jpeg")).set("w", w).set("h", h).set("px", r.next() >> 8).set("label", (int)r.below((uint32_t)k));
        if (png) l.set("ct", c == 1 ? 0 : r.chance(0.3) ? 3 : 2).set("depth", c == 1 && r.chance(0.2) ? (1 << r.below(3)) : 8).set("lace", r.chance(0.2) ? 1 : 0).set("level", r.range(0, 9));
        else l.set("c", c).set("q", r.range(30, 100)).set("sub", (int)r.below(4)).set("prog", r.chance(0.2) ? 1 : 0);
        l.set("mut", std::string("none"));
    }
    // a chain of layers on images, ending in class probabilities
    Net n;
    n.ins.push_back(flat ? Shp{B, c * h * w} : Shp{B, c, h, w});
    n.shapes = n.ins;
    int nl = r.range(0, 5);
    for (int i = 0; i < nl; ++i) {
        Shp s = n.shapes.back();
        static const char* four[] = {"Convolution", "Convolution", "MaxPooling", "ReLU", "LeakyReLU", "ELU", "BatchNorm2D", "Sigmoid", "GlobalAvgPooling", "Linear", "Add"};
        static const char* two[] = {"Linear", "ReLU", "ELU", "Sigmoid", "BatchNorm1D", "LeakyReLU", "Add"};
        std::string t = s.size() == 4 ? four[r.below(11)] : two[r.below(7)];
        int other = -1;
        if (t == "Add") {
            std::vector<int> same;
            for (int q = 0; q < (int)n.shapes.size(); ++q) if (n.shapes[q] == s) same.push_back(q);
            other = same[r.below((uint32_t)same.size())];
        }
        LSpec l = gen_layer(r, t, s, 0);
        l.in[0] = (int)n.shapes.size() - 1;
        l.in[1] = other;
        Shp out;
        if (!out_shape(l, s, other >= 0 ? n.shapes[other] : s, out) || numel(out) == 0 || numel(out) > 4000) continue;
        n.L.push_back(l);
        n.shapes.push_back(out);
    }
    LSpec l = gen_layer(r, "Linear", n.shapes.back(), 0);
    l.units = k;
    l.in[0] = (int)n.shapes.size() - 1;
    n.L.push_back(l);
    LSpec sm;
    sm.type = "Softmax";
    sm.in[0] = (int)n.shapes.size();
    n.L.push_back(sm);
    n.resolve();
    for (size_t i = 0; i < n.L.size(); ++i) n.L[i].name = "n" + std::to_string(i) + n.L[i].type.substr(0, 4);
    net_to_plan(n, p);
    int ops = r.range(3, 16);
    for (int i = 0; i < ops; ++i) {
        int q = r.below(24);
        uint64_t salt = r.next() >> 8;
        auto benign = [&](bool eintr) { if (r.chance(0.3)) p.fault("benign").set("seed", r.next() >> 8).set("short", r.unit() * 0.8).set("eintr", eintr && r.chance(0.4) ? r.unit() * 0.4 : 0.0); };
        if (q < 12) {
            p.op("step").set("salt", salt);
            if (r.chance(0.15)) p.fault("io").set("op", std::string(r.chance(0.85) ? "read" : "open")).set("at", r.unit()).set("err", r.chance(0.8) ? EIO : EMFILE).set("sticky", r.chance(0.5) ? 1 : 0);
            else if (r.chance(0.15)) { static const char* at[] = {"pull", "forward", "backward"}; p.fault("oom").set("where", std::string(at[r.below(3)])).set("index", (int)r.below(r.chance(0.6) ? 4 : 30)); }
            else if (r.chance(0.05)) p.fault("kill").set("op", std::string("read")).set("at", r.unit());
            benign(false);        // stdio does not repeat interrupted reads
        } else if (q < 17) {
            p.op("save").set("file", r.chance(0.8) ? i : (int)r.below(2)).set("giveup", r.chance(0.3) ? 1 : 0);
            static const char* what[] = {"write", "write", "write", "open", "close", "write", "write", "rename"};
            static const int errs[] = {ENOSPC, ENOSPC, EIO, EDQUOT};
            std::string o = what[r.below(8)];
            double at = o != "write" ? 0 : r.chance(0.6) ? r.unit() * 0.1 : r.unit();
            if (r.chance(0.3)) p.fault("io").set("op", o).set("at", at).set("err", errs[r.below(4)]).set("sticky", r.chance(0.6) ? 1 : 0).set("part", r.unit());
            else if (r.chance(0.35)) p.fault("kill").set("op", o).set("at", at).set("part", r.chance(0.3) ? 0.0 : r.unit());
            benign(true);
        } else if (q == 17) p.op("evaluate").set("salt", salt);
        else if (q == 18) p.op("lr").set("lr", (double)r.real(0.001f, 0.1f));
        else if (q == 19) p.op("freeze").set("layer", r.chance(0.2) ? -1 : (int)r.below((uint32_t)n.L.size())).set("on", r.chance(0.4) ? 1 : 0);
        else if (q < 22) p.fault("crash");
        else p.op("export");
    }
    if (r.chance(0.5)) p.op("evaluate").set("salt", 5);
    return p;
}
void exec(const Plan& p) {
    if (p.find("program")) return exec_main(p);
    if (!p.find("variant")) return;
    Board* b = board();
    memset((void*)b, 0, offsetof(Board, slot));
    b->slot[0].pending = b->slot[1].pending = b->slot[0].now.have = b->slot[1].now.have = b->exported = 0;
    int idx = 0;
    auto usable = [](const Net& n) { return !n.L.empty() && n.outs.size() == 1 && n.L.back().type == "Softmax" && n.outs[0] == n.vid((int)n.L.size() - 1) && n.shapes[n.outs[0]].size() == 2; };
    Net n = net_from_plan(p);
    if (!usable(n) || n.shapes[n.outs[0]][1] < (int)p.find("variant")->i("classes", 2)) return;
    for (;;) {
        int first = !b->made;
        ProcEnd e = run_process(p, idx++, [&] {
            Program g(p, first);
            b->made = 1;
            g.run();
        });
        sim::S->finished = 0;
        if (e.killed) sim::count("fault: process killed");
        if (b->line >= (long)p.lines.size()) break;
        if (idx > (int)p.lines.size() + 2) sim::violation("harness", "the program does not end");
    }
    if (b->exported) {
        run_process(p, idx++, [&] {
            Program g(p, false);
            g.start();
            g.test();
        });
        sim::S->finished = 0;
    }
    run_process(p, idx++, [&] {               // what a final restart would find
        Program g(p, !b->made);
        g.start();
        g.resume();
        sim::count("programs");
    });
}
Register reg({"C23", gen, exec, true});
}  // namespace
