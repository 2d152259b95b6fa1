// Layer graphs: generation, plan text, construction through the public API, and the reference.
#pragma once
#include "ref.hpp"
#include <deepworks/deepworks.hpp>

namespace dw = deepworks;

struct Net {
    std::vector<Shp> ins;
    std::vector<LSpec> L;             // value ids: inputs first, then one per layer
    std::vector<int> outs;
    std::vector<Shp> shapes;          // of every value
    int nin() const { return (int)ins.size(); }
    int vid(int layer) const { return nin() + layer; }
    void resolve();                   // compute shapes; sinks become outputs if outs is empty
    void sinks();
};

struct NetOpts {
    int min_layers = 1, max_layers = 6;
    int max_inputs = 1;
    bool dag = false;                 // fan-out, Add, several outputs
    bool dropout = false, bn = true, softmax_end = false;
    bool named = true;                // explicit layer names
    bool odd_names = false;
    double p4d = 0.6;
    int big = 0;                      // 0: small shapes; 1: occasionally large
};
Net gen_net(sim::Rng& r, const NetOpts& o);
LSpec gen_layer(sim::Rng& r, const std::string& type, const Shp& in, int big);
void net_to_plan(const Net& n, Plan& p, int thread = -1);
Net net_from_plan(const Plan& p, int thread = -1);
void layer_to_line(const LSpec& l, Line& ln);
LSpec layer_from_line(const Line& ln);

// ---- through the public API
dw::Placeholder apply_layer(const LSpec& l, const dw::Placeholders& in);
// Layers are created in the order given by a random topological permutation when perm != 0.
dw::Model build_model(const Net& n, uint64_t perm = 0, std::map<int, dw::Placeholder>* keep = nullptr);
Net sub_net(const Net& n, int value, std::vector<int>& ids);      // what value depends on; ids: old id of every value
void fill_state(dw::Model& m, uint64_t seed, float scale = 1);    // deterministic parameter values, by name
void fill(float* p, size_t n, uint64_t seed, float scale = 1);
dw::Tensor make_tensor(const Shp& s, uint64_t seed, float scale = 1);
inline DVec to_d(const dw::Tensor& t) { return DVec(t.data(), t.data() + t.total()); }
uint64_t name_hash(const std::string& s);

// ---- reference of a whole net
struct RefNet {
    Net n;
    std::vector<RLayer> L;
    explicit RefNet(const Net& net);
    void load(dw::Model& m);                         // parameters, buffers and modes of the model
    std::vector<DVec> val, grad;
    std::vector<DMap> pg;
    void forward(const std::vector<DVec>& in, Noise& nz);
    void backward(const std::vector<DVec>& gout, Noise& nz);
};
// One pass of the reference with tolerances.  Observables: out<i>, buf:<layer>.<b>, grad:<layer>.<p>.
struct PassRef {
    ObsSet obs;
    bool kinky = false;               // gradients not decided
    bool finite = true;
};
PassRef pass_reference(const RefNet& start, const std::vector<DVec>& in, const std::vector<DVec>& gout, bool backward, uint64_t seed);

// Check helpers: report a violation of class cls when the tensor differs from the reference.
void expect(const char* cls, const ObsSet& o, const std::string& name, const dw::Tensor& t, const std::string& what);
void expect_same_bits(const char* cls, const std::string& what, const float* a, const float* b, size_t n);
void check_races();                   // violation when the detector saw a race
using Snap = std::map<std::string, std::vector<float>>;
Snap snapshot(dw::Model& m);          // state(): parameters and buffers
Snap snapshot_grads(dw::Model& m);
std::string snap_diff(const Snap& a, const Snap& b);   // empty when bit-identical
