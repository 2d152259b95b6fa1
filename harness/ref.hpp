// Executable reference model, written from the documented mathematics in double precision and
// single-threaded.  Rounding is modelled by optional noise, which is how tolerances are obtained:
// the same computation is repeated with every reduction perturbed in proportion to its magnitude.
#pragma once
#include "plan.hpp"
#include <map>
#include <string>
#include <vector>

using Shp = std::vector<int>;
inline size_t numel(const Shp& s) { size_t n = 1; for (int d : s) n *= d; return n; }

struct LSpec {
    std::string type, name;
    int in[2] = {-1, -1};
    int units = 1;
    int k[2] = {1, 1}, pad[2] = {0, 0}, st[2] = {1, 1};
    float alpha = 0.1f, eps = 1e-5f, p = 0.5f;
};
int arity(const LSpec& l);
bool out_shape(const LSpec& l, const Shp& a, const Shp& b, Shp& out);   // false: not applicable
// names and shapes of parameters / buffers for the given input shape
std::vector<std::pair<std::string, Shp>> param_shapes(const LSpec& l, const Shp& in);
std::vector<std::pair<std::string, Shp>> buffer_shapes(const LSpec& l, const Shp& in);

using DVec = std::vector<double>;
using DMap = std::map<std::string, DVec>;

struct Noise {
    bool on = false;
    sim::Rng rng{1};
    double R(double v, double mag) {
        if (!on) return v;
        return v + (2 * rng.unit() - 1) * 1.2e-7 * mag;
    }
};

struct RLayer {
    LSpec sp;
    DMap par, buf;                 // current parameters and buffers, by short name
    bool train = true;             // mode of batch norm for the next forward
    std::vector<char> keep;        // dropout: elements kept (empty: identity)
    // remembered by forward
    Shp in_s, out_s;
    DVec xc, sd;
    bool fwd_train = true;
    std::vector<int> argmax;
    bool fwd(const DVec& a, const DVec& b, DVec& out, Noise& n);
    // grad wrt inputs are added to ga/gb (if not null); parameter gradients are assigned
    void bwd(const DVec& a, const DVec& out, const DVec& go, DVec* ga, DVec* gb, DMap& pg, Noise& n);
};
// True if the layer has a kink so close to these inputs that its gradient is not decided
// (noise: typical rounding noise of the inputs).
bool near_kink(const RLayer& l, const DVec& a, double noise);

// ---- observables with tolerances
struct Obs { std::string name; DVec ref, tol; };
struct ObsSet {
    std::vector<Obs> o;
    const Obs* get(const std::string& n) const { for (auto& x : o) if (x.name == n) return &x; return nullptr; }
};
using Named = std::vector<std::pair<std::string, DVec>>;
// Evaluate f once exactly and several times with noise; tolerances from the spread.
template <typename F> ObsSet with_tolerance(F f, uint64_t seed, int runs = 5) {
    ObsSet s;
    Noise off;
    Named base = f(off);
    for (auto& p : base) s.o.push_back({p.first, p.second, DVec(p.second.size(), 0.0)});
    for (int k = 0; k < runs; ++k) {
        Noise n;
        n.on = true;
        n.rng = sim::Rng(seed * 31 + k);
        Named v = f(n);
        for (size_t i = 0; i < v.size() && i < s.o.size(); ++i)
            for (size_t j = 0; j < v[i].second.size(); ++j) {
                double d = v[i].second[j] - s.o[i].ref[j];
                if (d < 0) d = -d;
                if (d > s.o[i].tol[j] || d != d) s.o[i].tol[j] = d;
            }
    }
    for (auto& o : s.o) {
        double mean = 0;
        for (double d : o.tol) mean += d;
        if (!o.tol.empty()) mean /= o.tol.size();
        for (size_t j = 0; j < o.tol.size(); ++j) {
            double a = o.ref[j] < 0 ? -o.ref[j] : o.ref[j];
            o.tol[j] = 60 * o.tol[j] + 12 * mean + 2e-6 * a + 1e-30;
        }
    }
    return s;
}
// Compare; on mismatch returns a description.
bool differs(const Obs& o, const float* v, size_t n, std::string& why);
