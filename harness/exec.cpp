#include "exec.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>

void set_mode(dw::Model& m, const std::string& layer, bool on) {
    for (auto& kv : m.params())
        if (kv.first.size() > layer.size() && !kv.first.compare(0, layer.size(), layer) && kv.first[layer.size()] == '.') kv.second.train(on);
}
void ModelRun::check_params(const Snap& before, bool buffers, const char* what) {
    Snap now = snapshot(m);
    for (auto& kv : before) {
        bool buf = !m.params().count(kv.first);
        if (buf && !buffers) continue;
        Snap a{{kv.first, kv.second}}, b;
        auto it = now.find(kv.first);
        if (it != now.end()) b[kv.first] = it->second;
        std::string w = snap_diff(a, b);
        if (!w.empty()) sim::violation(cls, "%s changed %s", what, w.c_str());
    }
}
void ModelRun::forward(uint64_t salt, float scale, bool check) {
    ++step;
    sim::phase("forward %d", step);
    std::vector<dw::Tensor> old = in;
    inputs(salt, scale);
    if (salt % 4 == 2 && old.size() == in.size()) {          // the same tensors with other contents
        for (size_t i = 0; i < in.size(); ++i) std::copy(in[i].data(), in[i].data() + in[i].total(), old[i].data());
        in = old;
    }
    old.clear();
    if (salt % 5 == 1) for (auto& o : out) o = dw::Tensor(o.shape());      // other tensors for the outputs
    at.load(m);
    have = true;
    auto want = d(in);
    for (auto& o : out) for (size_t i = 0; i < o.total(); ++i) o.data()[i] = 1e6f;
    Snap before = snapshot(m);
    m.forward(in, out);
    if (!check) return;
    PassRef ref = pass_reference(at, want, {}, false, salt);
    for (size_t i = 0; i < out.size(); ++i) expect(cls, ref.obs, "out" + std::to_string(i), out[i], "output of forward pass " + std::to_string(step));
    for (auto& l : at.L)
        for (auto& b : l.buf) {
            std::string key = l.sp.name + "." + b.first;
            auto it = m.state().find(key);
            if (it == m.state().end()) sim::violation(cls, "state() has no %s", key.c_str());
            expect(cls, ref.obs, "buf:" + key, it->second, "after forward pass " + std::to_string(step));
        }
    check_params(before, false, "forward");
    for (size_t i = 0; i < in.size(); ++i)
        for (size_t j = 0; j < in[i].total(); ++j)
            if ((double)in[i].data()[j] != want[i][j]) sim::violation(cls, "forward changed its input %zu", i);
    sim::count("checked forward passes");
}
void ModelRun::backward(uint64_t salt, float scale) {
    if (!have) return;
    ++step;
    sim::phase("backward %d", step);
    std::vector<dw::Tensor> go;
    for (size_t i = 0; i < out.size(); ++i) go.push_back(make_tensor(out[i].shape(), salt * 57 + i, scale));
    auto want_go = d(go);
    Snap before = snapshot(m);
    auto out_before = d(out);
    if (salt % 3 == 0) {        // the caller may pass copies and reuse its own tensors
        auto copies = [](const std::vector<dw::Tensor>& v) {
            std::vector<dw::Tensor> c;
            for (auto& t : v) {
                c.emplace_back(t.shape());
                std::copy(t.data(), t.data() + t.total(), c.back().data());
                std::fill(t.data(), t.data() + t.total(), 7e5f);
            }
            return c;
        };
        auto put = [](const std::vector<dw::Tensor>& from, std::vector<dw::Tensor>& to) {
            for (size_t i = 0; i < to.size(); ++i) std::copy(from[i].data(), from[i].data() + from[i].total(), to[i].data());
        };
        auto cin = copies(in), cout = copies(out);
        m.backward(cin, cout, go);
        put(cin, in);
        put(cout, out);
        sim::count("backward passes on copies");
    } else
        m.backward(in, out, go);
    PassRef ref = pass_reference(at, d(in), want_go, true, salt);
    if (ref.kinky) sim::count("gradients undecided (kink)");
    else {
        for (auto& l : at.L)
            for (auto& p : l.par) {
                std::string key = l.sp.name + "." + p.first;
                auto it = m.params().find(key);
                if (it == m.params().end()) sim::violation(cls, "params() has no %s", key.c_str());
                expect(cls, ref.obs, "grad:" + key, it->second.grad(), "gradient after backward pass " + std::to_string(step));
            }
        sim::count("checked backward passes");
    }
    check_params(before, true, "backward");
    auto now = d(out);
    if (now != out_before) sim::violation(cls, "backward changed the outputs of the forward pass");
    if (d(go) != want_go) sim::violation(cls, "backward changed the gradients it was given");
}
