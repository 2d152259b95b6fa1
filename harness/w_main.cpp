// C23, second mode: the programs of samples/ themselves (real main functions and data sets), run as
// simulated processes on generated files and judged by what they print and export.
#include "exec.hpp"
#include "img.hpp"
#include "opt.hpp"
#include "proc.hpp"
#include "ser.hpp"
#include "w_main.hpp"
#include <cmath>
#include <cstring>
#include <iostream>

#ifndef NO_SAMPLES
int sample_iris_main(int, char**);
int sample_mnist_main(int, char**);
int sample_cifar10_main(int, char**);
int sample_cifar100_main(int, char**);

namespace {
const char* const cls = "wrong-program";
const char* const kNames[] = {"iris", "mnist", "cifar10", "cifar100"};
const char* const kSpecies[] = {"setosa", "versicolor", "virginica"};
const char* const kThings[] = {"airplane", "automobile", "bird", "cat", "deer", "dog", "frog", "horse", "ship", "truck"};

std::string root() { return std::string(scratch_dir()) + "/"; }
struct Set { std::vector<std::vector<float>> x; std::vector<int> y; };
struct Files {
    int which, B;
    Set set[2];                          // train, test
    Files(const Plan& p, bool write) {
        const Line* v = p.find("program");
        which = (int)v->i("which") & 3;
        B = (int)v->i("batch", 2);
        const char* dirs[] = {"train", "test"};
        if (write) for (auto d : dirs) mkdir((root() + d).c_str(), 0755);
        std::string csv[2];
        for (auto& l : p.lines) {
            int s = (int)l.i("test") & 1;
            std::string dir = root() + dirs[s] + "/";
            Set& t = set[s];
            if (l.verb == "row" && which == 0) {
                std::vector<float> x;
                if (csv[s].empty()) csv[s] = "sepal_length,sepal_width,petal_length,petal_width,species\n";
                else csv[s] += "\n";
                for (const char* k : {"a", "b", "c", "d"}) {
                    std::string q = l.s(k, "1");
                    csv[s] += q + ",";
                    x.push_back((float)std::atof(q.c_str()));
                }
                int y = (int)l.i("label") % 3;
                csv[s] += kSpecies[y];
                t.x.push_back(x);
                t.y.push_back(y);
            }
            if (l.verb == "image" && which > 0) {
                Case k = img_case(l);
                const Img& g = k.want;
                int side = which == 1 ? 28 : 32, ch = which == 1 ? 1 : 3, y = (int)l.i("label") % 10;
                if (g.w != side || g.h != side || g.c != ch) sim::violation("harness", "image of another size");
                std::vector<float> x(g.px.size());
                for (int i = 0; i < side * side; ++i) for (int q = 0; q < ch; ++q) x[(size_t)q * side * side + i] = (float)g.px[(size_t)i * ch + q] / 255.f;
                std::string d = which == 1 ? std::to_string(y) : which == 2 ? kThings[y] : "class" + std::to_string(y * 7 % 10);
                if (write) {
                    mkdir((dir + d).c_str(), 0755);
                    spit(dir + d + "/" + std::to_string(t.x.size()) + "." + l.s("fmt"), k.bytes);
                }
                t.x.push_back(x);
                t.y.push_back(y);
            }
        }
        for (int s = 0; s < 2; ++s) if (write && which == 0 && !csv[s].empty()) spit(root() + dirs[s] + "/iris.csv", csv[s] + (v->i("nl", 1) ? "\n" : ""));
    }
};
LSpec lay(const char* type, const char* name, int units = 1) { LSpec l; l.type = type; l.name = name; l.units = units; return l; }
LSpec bn1(const char* name) { LSpec l = lay("BatchNorm1D", name); l.eps = 0.001f; l.alpha = 0.05f; return l; }
LSpec conv(const char* name) { LSpec l = lay("Convolution", name, 64); l.k[0] = l.k[1] = 5; l.pad[0] = l.pad[1] = 2; return l; }
LSpec pool(const char* name) { LSpec l = lay("MaxPooling", name); l.k[0] = l.k[1] = l.st[0] = l.st[1] = 2; return l; }
Net sample_net(int which, int B) {
    Net n;
    if (which < 2) {
        n.ins.push_back({B, which ? 784 : 4});
        n.L = {lay("Linear", "linear0", 100), lay("ReLU", "relu1"), bn1("batchnorm1d"), lay("Linear", "linear2", which ? 10 : 3), lay("Softmax", "softmax3")};
    } else {
        n.ins.push_back({B, 3, 32, 32});
        n.L = {conv("conv1"), pool("pool2"), lay("ReLU", "relu3"), conv("conv4"), pool("pool5"), lay("ReLU", "relu6"), lay("Linear", "linear7", 384), lay("ReLU", "relu8"),
               bn1("batchnorm1d9"), lay("Linear", "linear10", 192), lay("ReLU", "relu11"), bn1("batchnorm1d12"), lay("Linear", "linear13", 10), lay("Softmax", "softmax14")};
    }
    for (size_t i = 0; i < n.L.size(); ++i) n.L[i].in[0] = (int)i;
    n.resolve();
    return n;
}

// ---------------------------------------------------------------- one run of a sample program
struct Result { int returned; long failed, opens; char what[200]; char text[16000]; };
struct Board { int have; uint64_t hash; Result r; };
Board* board() { return (Board*)g_board; }
uint64_t snap_hash(const Snap& s) {
    uint64_t h = 1469598103934665603ull;
    auto mix = [&](const void* p, size_t n) { for (size_t i = 0; i < n; ++i) h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ull; };
    for (auto& kv : s) { mix(kv.first.data(), kv.first.size()); mix(kv.second.data(), 4 * kv.second.size()); }
    return h;
}
ProcEnd call_main(const Plan& p, int idx, const std::vector<std::string>& args, uint64_t dirseed, const std::vector<const Line*>& faults) {
    int which = (int)p.find("program")->i("which") & 3;
    Board* b = board();
    memset((void*)&b->r, 0, sizeof b->r);
    ProcEnd e = run_process(p, idx, [&] {
        std::vector<std::string> a{kNames[which]};
        a.insert(a.end(), args.begin(), args.end());
        std::vector<char*> v;
        for (auto& s : a) v.push_back(&s[0]);
        v.push_back(nullptr);
        std::ostringstream out;
        std::streambuf* old = std::cout.rdbuf(out.rdbuf());
        sim::seed_random_device(p.find("program")->u("seed"));
        sim::io_dir_seed(dirseed);
        std::vector<sim::IoFault> fs;
        sim::IoBenign be;
        const Line* oom = nullptr;
        for (const Line* l : faults) {
            if (l->verb == "oom") oom = l;
            if (l->verb == "benign") { be.seed = l->u("seed"); be.p_short = l->f("short"); }
            if (l->verb != "io" && l->verb != "kill") continue;
            sim::IoFault f;
            f.op = io_op(l->s("op"));
            f.index = l->i("index");
            f.err = (int)l->i("err", EIO);
            f.sticky = l->i("sticky") != 0;
            f.part = l->f("part");
            f.kill = l->verb == "kill";
            fs.push_back(f);
        }
        sim::io_arm(fs, be);
        if (oom && which == 0) sim::alloc_arm({oom->i("index"), false});
        else oom = nullptr;
        std::string what;
        bool threw = true;
        try {
            int (*mains[])(int, char**) = {sample_iris_main, sample_mnist_main, sample_cifar10_main, sample_cifar100_main};
            sim::phase("%s %s", kNames[which], args[0].c_str());
            int rc = mains[which]((int)a.size(), v.data());
            threw = rc != 0;
            if (rc) what = "exit code";
        } catch (const std::exception& x) { what = x.what(); }
        long k = oom ? sim::alloc_failures() : 0;
        if (oom) sim::alloc_disarm();
        sim::IoCounts c = sim::io_disarm();
        std::cout.rdbuf(old);
        sim::phase("after %s", kNames[which]);
        b->r.returned = !threw;
        // a read refused only at the end of a file takes nothing away
        b->r.failed = c.hard + k;
        b->r.opens = c.n[(int)sim::IoOp::OPEN];
        snprintf(b->r.what, sizeof b->r.what, "%s", what.c_str());
        std::string t = out.str();
        snprintf(b->r.text, sizeof b->r.text, "%s", t.c_str());
        size_t path = t.find(root());            // named after the process that runs the simulation
        sim::hash_bytes(t.data(), path == std::string::npos ? t.size() : path);
        check_races();
        if (sim::io_open_handles()) sim::violation(cls, "%s left %d files open", kNames[which], sim::io_open_handles());
        if (threw && !b->r.failed) sim::violation(cls, "%s %s failed although nothing went wrong: %s", kNames[which], args[0].c_str(), what.c_str());
        if (k && !threw) sim::count("sample survived a failed allocation");
        if (c.withheld && !threw && which == 0) sim::violation(cls, "%s %s went on without data of a file that could not be read", kNames[which], args[0].c_str());
    });
    sim::S->finished = 0;
    return e;
}
std::vector<std::string> lines_of(const char* t) {
    std::vector<std::string> v;
    std::istringstream s(t);
    std::string l;
    while (std::getline(s, l)) v.push_back(l);
    return v;
}
bool number(const std::string& line, const char* key, double& v) {
    size_t k = strlen(key);
    if (line.compare(0, k, key)) return false;
    v = std::atof(line.c_str() + k);
    return true;
}
std::vector<DVec> batches(const Set& s, int B) {
    std::vector<DVec> r;
    for (size_t i = 0; i + B <= s.x.size(); i += B) {
        DVec d;
        for (int q = 0; q < B; ++q) d.insert(d.end(), s.x[i + q].begin(), s.x[i + q].end());
        r.push_back(d);
    }
    return r;
}
// Accuracy of the reference network with this state; false when a prediction is too close to call.
bool reference_accuracy(const Files& f, dw::Model& m, double& acc) {
    Net n = sample_net(f.which, f.B);
    RefNet e(n);
    m.train(false);
    e.load(m);
    m.train(true);
    auto bs = batches(f.set[1], f.B);
    ObsSet o = with_tolerance([&](Noise& nz) {
        Named v;
        RefNet w = e;
        for (size_t i = 0; i < bs.size(); ++i) {
            w.forward({bs[i]}, nz);
            v.push_back({"p" + std::to_string(i), w.val[n.outs[0]]});
        }
        return v;
    }, 5, f.which == 2 ? 2 : 4);
    int K = n.shapes[n.outs[0]][1], good = 0, all = 0;
    for (size_t i = 0; i < bs.size(); ++i) {
        const Obs* p = o.get("p" + std::to_string(i));
        for (int q = 0; q < f.B; ++q) {
            int best = 0;
            for (int k = 1; k < K; ++k) if (p->ref[q * K + k] > p->ref[q * K + best]) best = k;
            for (int k = 0; k < K; ++k)
                if (k != best && !(p->ref[q * K + best] - p->ref[q * K + k] > p->tol[q * K + best] + p->tol[q * K + k] + 1e-6)) return false;
            good += best == f.set[1].y[i * f.B + q];
            all++;
        }
    }
    acc = all ? (double)good / all : 0;
    return all > 0;
}
bool close(double got, double want, double tol) { return std::fabs(got - want) <= tol + 2e-5 * std::fabs(want); }

struct Run {
    const Plan& p;
    const Line* v;
    int which, B, idx = 0;
    size_t ntrain = 0, ntest = 0;
    explicit Run(const Plan& p) : p(p), v(p.find("program")) {
        which = (int)v->i("which") & 3;
        B = (int)v->i("batch", 2);
        for (auto& l : p.lines)
            if (l.verb == (which ? "image" : "row")) (l.i("test") & 1 ? ntest : ntrain)++;
    }
    std::string model() const { return root() + "model.bin"; }
    std::string init() const { return root() + "init.bin"; }
    std::string probe() const { return root() + "probe.bin"; }
    std::vector<const Line*> faults(size_t i) const {
        std::vector<const Line*> r;
        for (size_t j = i + 1; j < p.lines.size() && p.lines[j].kind == "fault"; ++j) r.push_back(&p.lines[j]);
        return r;
    }
    // What a training run printed: per epoch the losses and the accuracy.
    void parse(int epochs, int freq, std::vector<double>& loss, std::vector<double>& acc) {
        auto ls = lines_of(board()->r.text);
        size_t at = 0;
        int iters = (int)(ntrain / B);
        auto next = [&](const char* key) {
            double x = 0;
            if (at >= ls.size() || !number(ls[at], key, x)) sim::violation(cls, "line %zu of the output is \"%s\" instead of \"%s...\"", at, at < ls.size() ? ls[at].c_str() : "", key);
            ++at;
            return x;
        };
        for (int e = 0; e < epochs; ++e) {
            if (next("Epoch: ") != e) sim::violation(cls, "epoch %d is announced as another one", e);
            int k = 0;
            for (int i = 1; i <= iters; ++i) k += i * B % freq == 0;
            double x = 0;
            for (int i = 0; i <= k; ++i) x = next("Loss: ");
            loss.push_back(x);
            acc.push_back(next("Accuracy: "));
        }
        next("Model saved: ");
    }
    void trajectory(const Files& f, int epochs, const std::vector<double>& loss, dw::Model& end) {
        if (which > 1 || ntrain != (size_t)B) return;
        dw::Model m0 = dw::load(init());
        m0.compile();
        m0.train(true);
        Net n = sample_net(which, B);
        RefNet at(n);
        at.load(m0);
        DVec x = batches(f.set[0], B)[0];
        int K = n.shapes[n.outs[0]][1];
        bool kinky = false;
        ObsSet o = with_tolerance([&](Noise& nz) {
            Named r;
            RefNet w = at;
            std::vector<DMap> vel(w.L.size());
            for (int e = 0; e < epochs; ++e) {
                w.forward({x}, nz);
                const DVec& q = w.val[n.outs[0]];
                DVec g(q.size(), 0.0);
                double s = 0;
                for (int i = 0; i < B; ++i) { double t = q[(size_t)i * K + f.set[0].y[i]]; s -= std::log(t); g[(size_t)i * K + f.set[0].y[i]] = -1 / (t * B); }
                r.push_back({"loss" + std::to_string(e), {nz.R(s / B, s / B + 1)}});
                if (!nz.on) for (size_t i = 0; i < w.L.size(); ++i) kinky |= near_kink(w.L[i], w.val[w.L[i].sp.in[0]], 1e-5);
                w.backward({g}, nz);
                for (size_t i = 0; i < w.L.size(); ++i)
                    for (auto& pr : w.L[i].par) {
                        DVec& u = vel[i][pr.first];
                        u.resize(pr.second.size(), 0.0);
                        for (size_t j = 0; j < u.size(); ++j) {
                            u[j] = 0.9 * u[j] + 1e-2 * w.pg[i][pr.first][j];
                            pr.second[j] = nz.R(pr.second[j] - u[j], std::fabs(pr.second[j]) + std::fabs(u[j]));
                        }
                    }
            }
            for (auto& l : w.L) {
                for (auto& q : l.par) r.push_back({l.sp.name + "." + q.first, q.second});
                for (auto& q : l.buf) r.push_back({l.sp.name + "." + q.first, q.second});
            }
            return r;
        }, p.seed, 5);
        if (kinky) { sim::count("sample trajectories undecided (kink)"); return; }
        for (int e = 0; e < epochs; ++e) {
            const Obs* q = o.get("loss" + std::to_string(e));
            if (!close(loss[e], q->ref[0], q->tol[0])) sim::violation(cls, "%s reports a loss of %.9g in epoch %d, the reference has %.9g", kNames[which], loss[e], e, q->ref[0]);
        }
        for (auto& kv : end.state()) expect(cls, o, kv.first, kv.second, std::string(kNames[which]) + ": " + kv.first + " after " + std::to_string(epochs) + " steps");
        sim::count("sample trajectories checked");
    }
    void train(const Line& ln, size_t i) {
        Board* b = board();
        int epochs = (int)ln.i("epochs"), freq = std::max(1, (int)ln.i("freq", 1));
        auto fs = faults(i);
        if (which < 2 && ntrain == (size_t)B) {
            call_main(p, idx++, {"train", root(), std::to_string(B), "0", "1", init()}, 3, {});
        }
        ProcEnd e = call_main(p, idx++, {"train", root(), std::to_string(B), std::to_string(epochs), std::to_string(freq), model()}, 17 + i, fs);
        bool good = e.ok && b->r.returned;
        if (e.killed) sim::count("fault: sample program killed");
        else if (!good) sim::count("sample programs failed and said so");
        run_process(p, idx++, [&] {
            Files f(p, false);
            bool threw = false;
            std::string why;
            dw::Model m;
            try { m = dw::load(model()); } catch (const std::exception& x) { threw = true; why = x.what(); }
            if (good && threw) sim::violation(cls, "%s saved a model that cannot be loaded: %s", kNames[which], why.c_str());
            if (threw) { b->have = 0; return; }
            m.compile();
            uint64_t h = snap_hash(snapshot(m));
            if (good) {
                std::vector<double> loss, acc;
                parse(epochs, freq, loss, acc);
                double want = 0;
                if (which < 3 && epochs && reference_accuracy(f, m, want)) {
                    if (!close(acc.back(), want, 1e-6)) sim::violation(cls, "%s reports an accuracy of %.9g, the exported model has %.9g", kNames[which], acc.back(), want);
                    sim::count("sample accuracies checked");
                }
                trajectory(f, epochs, loss, m);
            }
            b->have = 1;
            b->hash = h;
            sim::count("sample trainings");
        });
        sim::S->finished = 0;
    }
    double tested(const std::string& path, uint64_t dirseed, const std::vector<const Line*>& fs, bool& good) {
        Board* b = board();
        ProcEnd e = call_main(p, idx++, {"test", root(), std::to_string(B), path}, dirseed, fs);
        good = e.ok && b->r.returned;
        if (!good) return -1;
        auto ls = lines_of(b->r.text);
        double x = 0;
        if (ls.size() != 1 || !number(ls[0], "Accuracy: ", x)) sim::violation(cls, "%s test printed \"%.60s\"", kNames[which], b->r.text);
        return x;
    }
    void test(const Line&, size_t i) {
        Board* b = board();
        if (!b->have) return;
        bool good;
        double got = tested(model(), 170 + i, faults(i), good);
        if (!good) { sim::count("sample tests failed and said so"); return; }
        run_process(p, idx++, [&] {
            Files f(p, false);
            dw::Model m = dw::load(model());
            m.compile();
            if (snap_hash(snapshot(m)) != b->hash) sim::violation(cls, "a test run changed the model file");
            double want = 0;
            if (which < 3 && reference_accuracy(f, m, want) && !close(got, want, 1e-6))
                sim::violation(cls, "%s test reports an accuracy of %.9g, the model has %.9g", kNames[which], got, want);
            sim::count("sample tests");
        });
        sim::S->finished = 0;
    }
    // A model that always answers class k: its accuracy is the share of that class.
    void probes(const Line& ln, size_t i) {
        Board* b = board();
        if (!b->have) return;
        int k = (int)ln.i("class") % (which ? 10 : 3);
        run_process(p, idx++, [&] {
            dw::Model m = dw::load(model());
            m.compile();
            int K = m.outputs()[0].shape()[1];
            for (auto& kv : m.state()) {
                dw::Tensor t = kv.second;
                if (t.shape() == dw::Shape{K} && kv.first.size() > 5 && kv.first.substr(kv.first.size() - 5) == ".bias")
                    for (int q = 0; q < K; ++q) t.data()[q] = q == k ? 30.f : 0.f;
                if (t.shape().size() == 2 && t.shape()[0] == K && kv.first.size() > 7 && kv.first.substr(kv.first.size() - 7) == ".weight")
                    for (size_t q = 0; q < t.total(); ++q) t.data()[q] = 0;
            }
            dw::save(m, probe());
        });
        sim::S->finished = 0;
        bool g1, g2;
        double a = tested(probe(), 1000 + i, {}, g1), c = tested(probe(), 2000 + i, {}, g2);
        if (!g1 || !g2) return;
        if (std::fabs(a - c) > 1e-5) sim::violation(cls, "%s: two test runs on the same files and model report accuracies %.9g and %.9g", kNames[which], a, c);
        if (which < 3) {
            Files f(p, false);
            size_t n = ntest / B * B, good = 0;
            for (size_t q = 0; q < n; ++q) good += f.set[1].y[q] == k;
            if (n && std::fabs(a - (double)good / n) > 1e-5) sim::violation(cls, "%s: a model that answers %d for every image has accuracy %.9g, %zu of %zu are right", kNames[which], k, a, good, n);
        }
        sim::count("sample probes");
    }
};
}  // namespace

void gen_main(Plan& p, sim::Rng& r) {
    int q = r.below(100), which = q < 55 ? 0 : q < 84 ? 1 : q < 90 ? 2 : 3;
    int B = which < 2 ? r.range(2, 5) : which;       // two for cifar10, three for cifar100
    p.cfg("program").set("which", which).set("batch", B).set("seed", r.next() >> 8).set("nl", r.chance(0.8) ? 1 : 0);
    int n[2] = {r.chance(0.6) || which > 1 ? B : r.range(B, 3 * B), which > 1 ? B : B * r.range(1, 3)};
    if (which == 0 && r.chance(0.3)) n[1] += r.range(1, B);
    for (int s = 0; s < 2; ++s)
        for (int i = 0; i < n[s]; ++i) {
            int lab = which == 3 ? (i < 2 ? 1 : 2 + (int)r.below(8)) : r.chance(0.5) ? (int)r.below(3) : (int)r.below(which ? 10 : 3);
            if (which == 0) {
                Line& l = p.cfg("row");
                l.set("test", s).set("label", lab);
                for (const char* k : {"a", "b", "c", "d"}) {
                    char t[16];
                    snprintf(t, sizeof t, r.chance(0.8) ? "%.1f" : r.chance(0.5) ? "%.3f" : "%.0f", r.unit() * 8);
                    l.set(k, std::string(t));
                }
            } else {
                Line& l = p.cfg("image");
                int side = which == 1 ? 28 : 32;
                bool png = r.chance(0.7);
                l.set("test", s).set("label", lab).set("fmt", std::string(png ? "png" : "jpg")).set("w", side).set("h", side).set("px", r.next() >> 8);
                if (png) l.set("ct", which == 1 ? 0 : r.chance(0.2) ? 3 : 2).set("depth", 8).set("lace", r.chance(0.2) ? 1 : 0).set("level", r.range(0, 9));
                else l.set("c", which == 1 ? 1 : 3).set("q", r.range(60, 100)).set("sub", (int)r.below(3)).set("prog", 0);
                l.set("mut", std::string("none"));
            }
        }
    int ops = which > 1 ? 1 : r.range(1, 3);
    auto faults = [&](bool save) {
        double u = r.unit();
        if (u < 0.2) p.fault("io").set("op", std::string(r.chance(0.7) ? "read" : "open")).set("index", (int)r.below(which ? 40 : 6)).set("err", r.chance(0.8) ? EIO : EMFILE).set("sticky", r.chance(0.5) ? 1 : 0);
        else if (u < 0.32 && save) p.fault("io").set("op", std::string(r.chance(0.8) ? "write" : "close")).set("index", (int)r.below(3)).set("err", ENOSPC).set("sticky", r.chance(0.7) ? 1 : 0).set("part", r.unit());
        else if (u < 0.45) { static const char* w[] = {"read", "write", "open", "close", "write"}; p.fault("kill").set("op", std::string(w[r.below(5)])).set("index", (int)r.below(which ? 30 : 8)).set("part", r.unit()); }
        else if (u < 0.6 && which == 0) p.fault("oom").set("index", (int)r.below(r.chance(0.3) ? 30 : 400));
        if (r.chance(0.3)) p.fault("benign").set("seed", r.next() >> 8).set("short", r.unit() * 0.7);
    };
    for (int i = 0; i < ops; ++i) {
        p.op("train").set("epochs", which > 1 ? 1 : r.range(1, 4)).set("freq", r.range(1, 2 * B));
        faults(true);
        if (which < 2 && r.chance(0.6)) { p.op("test"); if (r.chance(0.4)) faults(false); }
        if (r.chance(which == 3 ? 1 : 0.3)) p.op("probe").set("class", which == 3 ? (int)r.below(2) : (int)r.below(3));
    }
}
void exec_main(const Plan& p) {
    Board* b = board();
    memset((void*)b, 0, sizeof *b);
    Run r(p);
    if (r.B < 2 || r.ntrain < (size_t)r.B || r.ntest < (size_t)r.B) return;
    if (r.which && r.ntest % r.B) return;
#ifdef SIM_T
    if (r.which > 1) return;                  // tens of seconds under the race detector
#endif
    run_process(p, r.idx++, [&] { Files f(p, true); });
    sim::S->finished = 0;
    for (size_t i = 0; i < p.lines.size(); ++i) {
        if (p.lines[i].verb == "train") r.train(p.lines[i], i);
        if (p.lines[i].verb == "test") r.test(p.lines[i], i);
        if (p.lines[i].verb == "probe") r.probes(p.lines[i], i);
    }
    run_process(p, r.idx++, [&] { sim::count("sample programs"); });
}
#else
void gen_main(Plan&, sim::Rng&) {}
void exec_main(const Plan&) {}
#endif
