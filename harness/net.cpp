#include "net.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <set>

void Net::sinks() {
    std::set<int> used;
    for (auto& l : L) for (int k = 0; k < arity(l); ++k) used.insert(l.in[k]);
    outs.clear();
    for (int i = 0; i < (int)L.size(); ++i) if (!used.count(vid(i))) outs.push_back(vid(i));
}
void Net::resolve() {
    shapes = ins;
    for (auto& l : L) {
        Shp o;
        out_shape(l, shapes[l.in[0]], arity(l) == 2 ? shapes[l.in[1]] : shapes[l.in[0]], o);
        shapes.push_back(o);
    }
    if (outs.empty()) sinks();
}

static int pick_size(sim::Rng& r, int lo, int hi, int big, int tail) {
    if (big && r.chance(0.12)) return r.range(lo, std::max(hi, tail));
    return r.range(lo, hi);
}
LSpec gen_layer(sim::Rng& r, const std::string& type, const Shp& in, int big) {
    LSpec l;
    l.type = type;
    if (type == "Linear") l.units = pick_size(r, 1, 6, big, 40);
    if (type == "Convolution") l.units = pick_size(r, 1, 4, big, 12);
    if (type == "Convolution" || type == "MaxPooling") {
        for (int d = 0; d < 2; ++d) {
            int hw = in.size() == 4 ? in[2 + d] : 4;
            l.k[d] = r.range(1, 3);
            if (r.chance(0.15)) l.k[d] = r.range(1, 5);
            l.pad[d] = r.range(0, type == "MaxPooling" ? l.k[d] / 2 : 2);
            if (hw + 2 * l.pad[d] < l.k[d]) l.k[d] = hw + 2 * l.pad[d];
            if (type == "MaxPooling" && 2 * l.pad[d] > l.k[d]) { l.pad[d] = 0; l.k[d] = std::min(l.k[d], hw); }
            l.st[d] = r.range(1, 3);
        }
        if (r.chance(0.4)) {          // square, the common case
            int hw0 = in.size() == 4 ? std::min(in[2], in[3]) : 4;
            if (hw0 + 2 * l.pad[0] >= l.k[0]) { l.k[1] = l.k[0]; l.pad[1] = l.pad[0]; l.st[1] = l.st[0]; }
        }
    }
    if (type == "LeakyReLU" || type == "ELU") {
        l.alpha = r.chance(0.3) ? 1.0f : r.real(0.01f, 1.8f);
        if (r.chance(0.12)) l.alpha = r.chance(0.5) ? 0.f : -r.real(0.01f, 1.8f);
    }
    if (type == "BatchNorm1D" || type == "BatchNorm2D") {
        l.alpha = r.chance(0.06) ? (float)r.below(2) : r.real(0.05f, 0.95f);
        l.eps = r.chance(0.5) ? 1e-5f : r.real(1e-4f, 0.1f);
    }
    if (type == "Dropout") l.p = r.chance(0.1) ? 0.f : r.chance(0.1) ? 0.95f : r.real(0.05f, 0.8f);
    return l;
}

Net gen_net(sim::Rng& r, const NetOpts& o) {
    Net n;
    bool four = r.chance(o.p4d);
    int b = o.big && r.chance(0.4) ? r.range(1, four ? 24 : 70) : r.range(1, 5);
    int nin = r.range(1, o.max_inputs);
    Shp base;
    if (four) base = {b, r.range(1, 3), pick_size(r, 1, 7, o.big, 14), pick_size(r, 1, 7, o.big, 14)};
    else base = {b, pick_size(r, 1, 7, o.big, 60)};
    for (int i = 0; i < nin; ++i) {
        Shp s = base;
        if (i && r.chance(0.4)) { if (four && r.chance(0.5)) s = {b, r.range(1, 3), r.range(1, 6), r.range(1, 6)}; else s = {b, r.range(1, 6)}; }
        n.ins.push_back(s);
    }
    n.shapes = n.ins;
    int nl = r.range(o.min_layers, o.max_layers);
    std::vector<int> uses(n.nin(), 0);
    for (int i = 0; i < nl; ++i) {
        int nv = (int)n.shapes.size();
        int a;
        if (!o.dag) a = nv - 1;
        else if (i < nin && uses[i] == 0 && r.chance(0.8)) a = i;
        else a = r.chance(0.5) ? nv - 1 : (int)r.below(nv);
        Shp s = n.shapes[a];
        if (s.empty()) continue;
        std::vector<std::string> t = {"Linear", "ReLU", "LeakyReLU", "ELU", "Sigmoid"};
        if (o.bn) t.push_back(s.size() == 4 ? "BatchNorm2D" : "BatchNorm1D");
        if (s.size() == 2) { t.push_back("Linear"); t.push_back("Softmax"); }
        if (s.size() == 4) {
            t.push_back("Convolution");
            t.push_back("Convolution");
            t.push_back("MaxPooling");
            if (r.chance(0.3)) t.push_back("GlobalAvgPooling");
            if (!r.chance(0.4)) t.erase(t.begin());
        }
        if (o.dropout) { t.push_back("Dropout"); t.push_back("Dropout"); }
        std::string type = t[r.below((uint32_t)t.size())];
        int c = -1;
        if (o.dag && r.chance(0.35)) {
            std::vector<int> same;
            for (int k = 0; k < nv; ++k) if (n.shapes[k] == s) same.push_back(k);
            if (!same.empty()) { c = same[r.below((uint32_t)same.size())]; type = "Add"; }
        }
        LSpec l = gen_layer(r, type, s, o.big);
        if (type == "Linear" && o.dag && r.chance(0.4)) l.units = s.size() == 2 ? s[1] : l.units;
        l.in[0] = a;
        if (type == "Add") l.in[1] = c;
        Shp out;
        if (!out_shape(l, s, c >= 0 ? n.shapes[c] : s, out)) continue;
        if (numel(out) > 6000) continue;
        n.L.push_back(l);
        n.shapes.push_back(out);
        uses.resize(n.shapes.size(), 0);
        uses[a]++;
        if (c >= 0) uses[c]++;
    }
    // every input must be consumed
    for (int i = 0; i < nin; ++i) {
        bool used = false;
        for (auto& l : n.L) for (int k = 0; k < arity(l); ++k) used |= l.in[k] == i;
        if (!used) {
            LSpec l = gen_layer(r, "Linear", n.ins[i], 0);
            l.in[0] = i;
            n.L.push_back(l);
            n.shapes.push_back({n.ins[i][0], l.units});
        }
    }
    if (o.softmax_end) {
        int last = (int)n.shapes.size() - 1;
        LSpec l = gen_layer(r, "Linear", n.shapes[last], 0);
        l.units = r.range(2, 6);
        l.in[0] = last;
        n.L.push_back(l);
        LSpec s;
        s.type = "Softmax";
        s.in[0] = last + 1;
        n.L.push_back(s);
    }
    n.resolve();
    if (n.outs.size() > 1) for (size_t i = n.outs.size() - 1; i > 0; --i) std::swap(n.outs[i], n.outs[r.below((uint32_t)i + 1)]);
    for (size_t i = 0; i < n.L.size(); ++i) {
        if (!o.named) continue;
        n.L[i].name = "n" + std::to_string(i) + n.L[i].type.substr(0, 4);
        if (o.odd_names && r.chance(0.4)) {
            std::string s;
            int len = r.range(1, r.chance(0.1) ? 300 : 20);
            for (int k = 0; k < len; ++k) s += r.chance(0.5) ? (char)r.range(33, 126) : (char)r.range(1, 255);
            n.L[i].name = s + "#" + std::to_string(i);
        }
    }
    return n;
}

void layer_to_line(const LSpec& l, Line& ln) {
    ln.set("type", l.type).set("name", hex_encode(l.name)).set("a", l.in[0]);
    if (arity(l) == 2) ln.set("b", l.in[1]);
    if (l.type == "Linear" || l.type == "Convolution") ln.set("units", l.units);
    if (l.type == "Convolution" || l.type == "MaxPooling")
        ln.set("k", std::vector<int>{l.k[0], l.k[1]}).set("pad", std::vector<int>{l.pad[0], l.pad[1]}).set("st", std::vector<int>{l.st[0], l.st[1]});
    if (l.type == "LeakyReLU" || l.type == "ELU" || l.type.rfind("BatchNorm", 0) == 0) ln.set("alpha", (double)l.alpha);
    if (l.type.rfind("BatchNorm", 0) == 0) ln.set("eps", (double)l.eps);
    if (l.type == "Dropout") ln.set("p", (double)l.p);
}
LSpec layer_from_line(const Line& ln) {
    LSpec l;
    l.type = ln.s("type");
    l.name = hex_decode(ln.s("name"));
    l.in[0] = (int)ln.i("a");
    l.in[1] = (int)ln.i("b", -1);
    l.units = (int)ln.i("units", 1);
    auto get = [&](const char* k, int* d) { auto v = ln.v(k); if (v.size() == 2) { d[0] = v[0]; d[1] = v[1]; } };
    get("k", l.k);
    get("pad", l.pad);
    get("st", l.st);
    l.alpha = (float)ln.f("alpha", 0.1);
    l.eps = (float)ln.f("eps", 1e-5);
    l.p = (float)ln.f("p", 0.5);
    return l;
}
void net_to_plan(const Net& n, Plan& p, int th) {
    for (int i = 0; i < n.nin(); ++i) {
        Line& l = p.cfg("input").set("id", i).set("shape", n.ins[i]);
        if (th >= 0) l.set("th", th);
    }
    for (size_t i = 0; i < n.L.size(); ++i) {
        Line& l = p.op("layer").set("id", n.vid((int)i));
        layer_to_line(n.L[i], l);
        if (th >= 0) l.set("th", th);
    }
    Line& l = p.cfg("outs").set("ids", n.outs);
    if (th >= 0) l.set("th", th);
}
Net net_from_plan(const Plan& p, int th) {
    Net n;
    std::map<int, int> id;
    std::vector<int> want;
    for (auto& l : p.lines) {
        if (l.i("th", -1) != th) continue;
        if (l.verb == "input") { id[(int)l.i("id")] = n.nin(); n.ins.push_back(l.v("shape")); }
    }
    n.shapes = n.ins;
    for (auto& l : p.lines) {
        if (l.i("th", -1) != th) continue;
        if (l.verb == "layer") {
            LSpec s = layer_from_line(l);
            auto look = [&](int want_id) {
                auto it = id.find(want_id);
                return it != id.end() ? it->second : (int)n.shapes.size() - 1;   // its producer was dropped
            };
            s.in[0] = look(s.in[0]);
            if (arity(s) == 2) s.in[1] = look(s.in[1]);
            Shp o;
            bool ok = out_shape(s, n.shapes[s.in[0]], arity(s) == 2 ? n.shapes[s.in[1]] : n.shapes[s.in[0]], o);
            if (!ok || numel(o) == 0 || numel(o) > 200000) continue;
            id[(int)l.i("id")] = (int)n.shapes.size();
            n.L.push_back(s);
            n.shapes.push_back(o);
        }
        if (l.verb == "outs") want = l.v("ids");
    }
    for (int i = 0; i < n.nin(); ++i) {               // dropped consumers
        bool used = false;
        for (auto& l : n.L) for (int k = 0; k < arity(l); ++k) used |= l.in[k] == i;
        if (!used) {
            LSpec s;
            s.type = n.ins[i].size() >= 2 ? "Linear" : "ReLU";
            s.units = 2;
            s.name = "pad" + std::to_string(i);
            s.in[0] = i;
            n.L.push_back(s);
        }
    }
    n.outs.clear();
    n.resolve();
    // the order the user gave
    std::vector<int> ord;
    for (int w : want) { auto it = id.find(w); if (it != id.end() && std::count(n.outs.begin(), n.outs.end(), it->second) && !std::count(ord.begin(), ord.end(), it->second)) ord.push_back(it->second); }
    for (int o : n.outs) if (!std::count(ord.begin(), ord.end(), o)) ord.push_back(o);
    n.outs = ord;
    return n;
}

// ---------------------------------------------------------------- public API
dw::Placeholder apply_layer(const LSpec& l, const dw::Placeholders& in) {
    std::array<int, 2> k{l.k[0], l.k[1]}, p{l.pad[0], l.pad[1]}, s{l.st[0], l.st[1]};
    const std::string& t = l.type;
    if (t == "Linear") return dw::Linear(l.units, l.name)(in[0]);
    if (t == "ReLU") return dw::ReLU(l.name)(in[0]);
    if (t == "LeakyReLU") return dw::LeakyReLU(l.alpha, l.name)(in[0]);
    if (t == "ELU") return dw::ELU(l.alpha, l.name)(in[0]);
    if (t == "Sigmoid") return dw::Sigmoid(l.name)(in[0]);
    if (t == "Softmax") return dw::Softmax(l.name)(in[0]);
    if (t == "BatchNorm1D") return dw::BatchNorm1D(l.eps, l.alpha, l.name)(in[0]);
    if (t == "BatchNorm2D") return dw::BatchNorm2D(l.eps, l.alpha, l.name)(in[0]);
    if (t == "Convolution") return dw::Convolution(l.units, k, p, s, l.name)(in[0]);
    if (t == "MaxPooling") return dw::MaxPooling(k, p, s, l.name)(in[0]);
    if (t == "GlobalAvgPooling") return dw::GlobalAvgPooling(l.name)(in[0]);
    if (t == "Dropout") return dw::Dropout(l.p, l.name)(in[0]);
    if (t == "Add") return dw::Add(l.name)(in[0], in[1]);
    sim::violation("harness", "unknown layer %s", t.c_str());
}
Net sub_net(const Net& n, int value, std::vector<int>& ids) {
    std::vector<char> need(n.shapes.size(), 0);
    need[value] = 1;
    for (int i = (int)n.L.size() - 1; i >= 0; --i)
        if (need[n.vid(i)]) for (int k = 0; k < arity(n.L[i]); ++k) need[n.L[i].in[k]] = 1;
    Net s;
    std::map<int, int> to;
    ids.clear();
    for (int i = 0; i < n.nin(); ++i) if (need[i]) { to[i] = (int)s.ins.size(); s.ins.push_back(n.ins[i]); ids.push_back(i); }
    for (int i = 0; i < (int)n.L.size(); ++i)
        if (need[n.vid(i)]) {
            LSpec l = n.L[i];
            for (int k = 0; k < arity(l); ++k) l.in[k] = to[l.in[k]];
            to[n.vid(i)] = (int)ids.size();
            s.L.push_back(l);
            ids.push_back(n.vid(i));
        }
    s.outs = {to[value]};
    s.resolve();
    return s;
}
dw::Model build_model(const Net& n, uint64_t perm, std::map<int, dw::Placeholder>* keep) {
    std::vector<dw::Placeholder> v;
    for (auto& s : n.ins) v.emplace_back(s);
    int nv = n.nin() + (int)n.L.size();
    std::map<int, dw::Placeholder> ph;
    for (int i = 0; i < n.nin(); ++i) ph.emplace(i, v[i]);
    sim::Rng r(perm);
    std::vector<int> todo;
    for (int i = 0; i < (int)n.L.size(); ++i) todo.push_back(i);
    while (!todo.empty()) {
        std::vector<size_t> ready;
        for (size_t k = 0; k < todo.size(); ++k) {
            const LSpec& l = n.L[todo[k]];
            bool ok = true;
            for (int a = 0; a < arity(l); ++a) ok &= ph.count(l.in[a]) != 0;
            if (ok) ready.push_back(k);
        }
        size_t k = ready[perm ? r.below((uint32_t)ready.size()) : 0];
        int i = todo[k];
        todo.erase(todo.begin() + k);
        const LSpec& l = n.L[i];
        dw::Placeholders in{ph.at(l.in[0])};
        if (arity(l) == 2) in.push_back(ph.at(l.in[1]));
        ph.emplace(n.vid(i), apply_layer(l, in));
    }
    (void)nv;
    if (keep) *keep = ph;
    dw::Placeholders I, O;
    for (int i = 0; i < n.nin(); ++i) I.push_back(ph.at(i));
    for (int o : n.outs) O.push_back(ph.at(o));
    return dw::Model(I, O);
}
uint64_t name_hash(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}
void fill(float* p, size_t n, uint64_t seed, float scale) {
    sim::Rng r(seed);
    for (size_t i = 0; i < n; ++i) {
        float v = r.real(-2.f, 2.f);
        if (v > -0.05f && v < 0.05f) v += v < 0 ? -0.05f : 0.05f;
        p[i] = v * scale;
    }
}
dw::Tensor make_tensor(const Shp& s, uint64_t seed, float scale) {
    dw::Tensor t(s);
    fill(t.data(), t.total(), seed, scale);
    return t;
}
void fill_state(dw::Model& m, uint64_t seed, float scale) {
    for (auto& kv : m.state()) {
        dw::Tensor t = kv.second;
        const std::string& n = kv.first;
        auto ends = [&](const char* s) { size_t k = strlen(s); return n.size() >= k && !n.compare(n.size() - k, k, s); };
        if (ends(".mask")) continue;
        fill(t.data(), t.total(), seed ^ name_hash(n), scale);
        if (ends(".running_var")) for (size_t i = 0; i < t.total(); ++i) t.data()[i] = 0.2f + std::fabs(t.data()[i]);
        if (ends(".weight")) for (size_t i = 0; i < t.total(); ++i) t.data()[i] *= 0.5f;
    }
}

// ---------------------------------------------------------------- reference
RefNet::RefNet(const Net& net) : n(net) {
    for (size_t i = 0; i < n.L.size(); ++i) {
        RLayer l;
        l.sp = n.L[i];
        l.in_s = n.shapes[n.L[i].in[0]];
        L.push_back(l);
    }
}
void RefNet::load(dw::Model& m) {
    for (auto& l : L) {
        auto layer = m.getLayer(l.sp.name);
        for (auto& p : layer.params()) {
            l.par[p.first] = to_d(p.second.data());
            l.train = p.second.is_trainable();
            if (l.sp.type.rfind("BatchNorm", 0) == 0 && p.first == "gamma") l.train = p.second.is_trainable();
        }
        for (auto& b : layer.buffers()) l.buf[b.first] = to_d(b.second);
    }
}
void RefNet::forward(const std::vector<DVec>& in, Noise& nz) {
    val.assign(n.shapes.size(), {});
    for (size_t i = 0; i < in.size(); ++i) val[i] = in[i];
    for (size_t i = 0; i < L.size(); ++i) {
        const LSpec& l = L[i].sp;
        L[i].fwd(val[l.in[0]], val[arity(l) == 2 ? l.in[1] : l.in[0]], val[n.vid((int)i)], nz);
    }
}
void RefNet::backward(const std::vector<DVec>& gout, Noise& nz) {
    grad.assign(n.shapes.size(), {});
    for (size_t i = 0; i < n.shapes.size(); ++i) grad[i].assign(numel(n.shapes[i]), 0);
    for (size_t i = 0; i < n.outs.size(); ++i) grad[n.outs[i]] = gout[i];
    pg.assign(L.size(), {});
    for (int i = (int)L.size() - 1; i >= 0; --i) {
        const LSpec& l = L[i].sp;
        L[i].bwd(val[l.in[0]], val[n.vid(i)], grad[n.vid(i)], &grad[l.in[0]], arity(l) == 2 ? &grad[l.in[1]] : nullptr, pg[i], nz);
    }
}
PassRef pass_reference(const RefNet& start, const std::vector<DVec>& in, const std::vector<DVec>& gout, bool backward, uint64_t seed) {
    PassRef pr;
    std::vector<DVec> base;
    std::vector<double> dev;
    auto f = [&](Noise& nz) {
        RefNet r = start;
        r.forward(in, nz);
        if (backward) r.backward(gout, nz);
        if (!nz.on) { base = r.val; dev.assign(base.size(), 0.0); }
        else
            for (size_t i = 0; i < base.size(); ++i)
                for (size_t j = 0; j < base[i].size(); ++j) dev[i] = std::max(dev[i], std::fabs(r.val[i][j] - base[i][j]));
        Named o;
        for (size_t i = 0; i < r.n.outs.size(); ++i) o.push_back({"out" + std::to_string(i), r.val[r.n.outs[i]]});
        for (auto& l : r.L) for (auto& b : l.buf) o.push_back({"buf:" + l.sp.name + "." + b.first, b.second});
        if (backward)
            for (size_t i = 0; i < r.L.size(); ++i)
                for (auto& g : r.pg[i]) o.push_back({"grad:" + r.L[i].sp.name + "." + g.first, g.second});
        return o;
    };
    pr.obs = with_tolerance(f, seed);
    if (backward) {
        RefNet r = start;
        Noise off;
        r.forward(in, off);
        for (size_t i = 0; i < r.L.size(); ++i)
            if (near_kink(r.L[i], r.val[r.L[i].sp.in[0]], dev[r.L[i].sp.in[0]])) pr.kinky = true;
    }
    return pr;
}

void expect(const char* cls, const ObsSet& o, const std::string& name, const dw::Tensor& t, const std::string& what) {
    const Obs* ob = o.get(name);
    if (!ob) return;
    sim::hash_bytes(t.data(), t.total() * sizeof(float));
    std::string why;
    if (differs(*ob, t.data(), t.total(), why)) sim::violation(cls, "%s: %s", what.c_str(), why.c_str());
}
void expect_same_bits(const char* cls, const std::string& what, const float* a, const float* b, size_t n) {
    for (size_t i = 0; i < n; ++i)
        if (memcmp(a + i, b + i, 4)) sim::violation(cls, "%s: element %zu of %zu is %.9g, expected %.9g", what.c_str(), i, n, a[i], b[i]);
}
void check_races() {
    if (sim::race_count()) sim::violation("data-race", "%d data race(s): %s", sim::race_count(), sim::race_text());
}
Snap snapshot(dw::Model& m) {
    Snap s;
    for (auto& kv : m.state()) s[kv.first] = std::vector<float>(kv.second.data(), kv.second.data() + kv.second.total());
    return s;
}
Snap snapshot_grads(dw::Model& m) {
    Snap s;
    for (auto& kv : m.params()) s[kv.first] = std::vector<float>(kv.second.grad().data(), kv.second.grad().data() + kv.second.grad().total());
    return s;
}
std::string snap_diff(const Snap& a, const Snap& b) {
    for (auto& kv : a) {
        auto it = b.find(kv.first);
        if (it == b.end()) return kv.first + " is missing";
        if (it->second.size() != kv.second.size()) return kv.first + " has another size";
        for (size_t i = 0; i < kv.second.size(); ++i)
            if (memcmp(&kv.second[i], &it->second[i], 4)) {
                char buf[200];
                snprintf(buf, sizeof buf, "[%zu]: %.9g -> %.9g", i, kv.second[i], it->second[i]);
                return kv.first + buf;
            }
    }
    for (auto& kv : b) if (!a.count(kv.first)) return kv.first + " appeared";
    return "";
}
