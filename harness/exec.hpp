// Drives one model through a history of passes and compares each with the reference.
#pragma once
#include "net.hpp"

struct ModelRun {
    Net n;
    dw::Model m;
    std::vector<dw::Tensor> in, out;
    RefNet at;                        // reference state just before the latest forward
    bool have = false;
    int step = 0;
    const char* cls;
    ModelRun(const Net& net, dw::Model model, const char* c) : n(net), m(model), at(net), cls(c) {
        m.compile();
        for (int o : n.outs) out.emplace_back(n.shapes[o]);
    }
    static std::vector<DVec> d(const std::vector<dw::Tensor>& t) { std::vector<DVec> r; for (auto& x : t) r.push_back(to_d(x)); return r; }
    void inputs(uint64_t salt, float scale) {
        std::vector<dw::Tensor> x;
        for (int i = 0; i < n.nin(); ++i) x.push_back(make_tensor(n.ins[i], salt * 31 + i, scale));
        in = x;
    }
    void check_params(const Snap& before, bool buffers, const char* what);
    void forward(uint64_t salt, float scale, bool check = true);
    void backward(uint64_t salt, float scale);
};
void set_mode(dw::Model& m, const std::string& layer, bool on);      // all parameters of one layer
