// Reference optimizers and loss.
#pragma once
#include "net.hpp"
#include <cmath>

struct RefOpt {
    int kind = 0;                  // 0 SGD, 1 momentum, 2 Adam
    float lr = 0.1f, gamma = 0.9f, b1 = 0.9f, b2 = 0.999f, eps = 0.001f;
    size_t t = 0;
    std::map<std::string, DVec> a, b, mag;
    // Expected new value and tolerance of every element of one parameter.
    void step(const std::string& name, const std::vector<float>& w, const std::vector<float>& g, DVec& want, DVec& tol) {
        size_t n = w.size();
        want.resize(n);
        tol.resize(n);
        DVec &A = a[name], &B = b[name], &M = mag[name];
        A.resize(n, 0);
        B.resize(n, 0);
        M.resize(n, 0);
        for (size_t i = 0; i < n; ++i) {
            double upd = 0, m = 0;
            if (kind == 0) { upd = (double)lr * g[i]; m = std::fabs(upd); }
            if (kind == 1) {
                A[i] = (double)gamma * A[i] + (double)lr * g[i];
                M[i] = (double)gamma * M[i] + std::fabs((double)lr * g[i]);
                upd = A[i];
                m = M[i];
            }
            if (kind == 2) {
                A[i] = (double)b1 * A[i] + (1 - (double)b1) * g[i];
                M[i] = (double)b1 * M[i] + (1 - (double)b1) * std::fabs((double)g[i]);
                B[i] = (double)b2 * B[i] + (1 - (double)b2) * (double)g[i] * g[i];
                double c1 = 1 - std::pow((double)b1, (double)t), c2 = 1 - std::pow((double)b2, (double)t);
                double den = std::sqrt(B[i] / c2) + eps;
                upd = lr * A[i] / c1 / den;
                m = lr * M[i] / c1 / den;
            }
            want[i] = w[i] - upd;
            tol[i] = (kind == 2 ? 4e-4 : 1e-5) * m + 3e-7 * (std::fabs((double)w[i]) + m) + 1e-37;
        }
    }
};
struct AnyOpt {
    std::unique_ptr<dw::optimizer::SGD> s;
    std::unique_ptr<dw::optimizer::SGDMomentum> m;
    std::unique_ptr<dw::optimizer::Adam> a;
    AnyOpt() = default;
    AnyOpt(const RefOpt& r, dw::ParamMap& p, bool defaults) {
        if (r.kind == 0) s.reset(new dw::optimizer::SGD(p, r.lr));
        if (r.kind == 1) m.reset(defaults ? new dw::optimizer::SGDMomentum(p, r.lr) : new dw::optimizer::SGDMomentum(p, r.lr, r.gamma));
        if (r.kind == 2) a.reset(defaults ? new dw::optimizer::Adam(p, r.lr) : new dw::optimizer::Adam(p, r.lr, {r.b1, r.b2}, r.eps, r.t));
    }
    void step() { if (s) s->step(); if (m) m->step(); if (a) a->step(); }
    void set_lr(float v) { if (s) s->set_lr(v); if (m) m->set_lr(v); if (a) a->set_lr(v); }
    float get_lr() { return s ? s->get_lr() : m ? m->get_lr() : a ? a->get_lr() : 0; }
};
inline void opt_to_line(const RefOpt& r, Line& l) {
    l.set("kind", r.kind).set("lr", (double)r.lr).set("gamma", (double)r.gamma).set("b1", (double)r.b1).set("b2", (double)r.b2).set("eps", (double)r.eps).set("t", (long)r.t);
}
inline RefOpt opt_from_line(const Line& l) {
    RefOpt r;
    r.kind = (int)l.i("kind");
    r.lr = (float)l.f("lr", 0.1);
    r.gamma = (float)l.f("gamma", 0.9);
    r.b1 = (float)l.f("b1", 0.9);
    r.b2 = (float)l.f("b2", 0.999);
    r.eps = (float)l.f("eps", 0.001);
    r.t = (size_t)l.i("t");
    return r;
}
RefOpt gen_opt(sim::Rng& r, bool& defaults);
// Take one step and compare every parameter with the reference.
void checked_step(AnyOpt& o, RefOpt& ref, dw::ParamMap& params, const char* cls, int no);
// Loss value and gradient against the definition.
void checked_loss(dw::loss::CrossEntropyLoss& c, const dw::Tensor& pred, const dw::Tensor& target, dw::Tensor& grad, const char* cls, const std::string& what);
dw::Tensor make_targets(int b, int k, uint64_t salt);
