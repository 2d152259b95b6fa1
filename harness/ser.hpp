// Description of a model for comparing what was saved with what was loaded.
#pragma once
#include "exec.hpp"
#include "proc.hpp"
#include <cmath>
#include <cstring>
#include <fstream>
#include <sstream>
#include <sys/stat.h>

struct Desc {
    std::string structure;                    // layers by name: type, attributes, producers; inputs; outputs
    Snap state;
    std::vector<std::vector<float>> out;      // evaluation-mode outputs for fixed inputs
};
inline std::string attr_text(const dw::Attribute& a) {
    std::ostringstream o;
    o.precision(9);
    o << (int)a.shape() << "/" << (int)a.type() << "=";
    if (a.shape() == dw::AttrShape::VALUE) {
        if (a.type() == dw::AttrType::INT) o << a.get<int>();
        else if (a.type() == dw::AttrType::FLOAT) o << a.get<float>();
    } else {
        if (a.type() == dw::AttrType::INT) o << a.get<std::array<int, 2>>()[0] << "," << a.get<std::array<int, 2>>()[1];
        else if (a.type() == dw::AttrType::FLOAT) o << a.get<std::array<float, 2>>()[0] << "," << a.get<std::array<float, 2>>()[1];
    }
    return o.str();
}
inline std::string shape_text(const dw::Shape& s) { std::string o = "("; for (int d : s) o += std::to_string(d) + ","; return o + ")"; }
// The configuration up to the numbering of values and the order of independent layers.
inline std::string cfg_text(const dw::Model::Config& c) {
    std::map<int, std::string> who;
    for (size_t i = 0; i < c.input_ids.size(); ++i) who[c.input_ids[i]] = "input" + std::to_string(i);
    for (auto& op : c.sorted_ops) for (size_t k = 0; k < op.out_ids.size(); ++k) who[op.out_ids[k]] = "<" + hex_encode(op.name) + ">";
    auto val = [&](int id) {
        auto it = c.ph_map.find(id);
        return (who.count(id) ? who[id] : std::string("?")) + (it == c.ph_map.end() ? std::string("(no shape)") : shape_text(it->second.shape));
    };
    std::map<std::string, std::string> by;
    for (auto& op : c.sorted_ops) {
        std::string t = op.type + " [";
        std::map<std::string, std::string> at;
        for (auto& a : op.attrs) at[a.first] = attr_text(a.second);
        for (auto& a : at) t += a.first + ":" + a.second + " ";
        t += "] from";
        for (int i : op.in_ids) t += " " + val(i);
        t += " to";
        for (int i : op.out_ids) t += " " + val(i);
        by[op.name] = t;
    }
    std::string o = "inputs";
    for (int i : c.input_ids) o += " " + val(i);
    o += "\noutputs";
    for (int i : c.output_ids) o += " " + val(i);
    o += "\n";
    for (auto& b : by) o += hex_encode(b.first) + ": " + b.second + "\n";
    o += std::to_string(c.sorted_ops.size()) + " layers, " + std::to_string(c.ph_map.size()) + " values\n";
    return o;
}
inline std::string model_text(dw::Model& m) {
    std::string o = "in";
    for (auto& p : m.inputs()) o += " " + shape_text(p.shape());
    o += " out";
    for (auto& p : m.outputs()) o += " " + shape_text(p.shape());
    o += "\n";
    std::map<std::string, std::string> by;
    for (auto& l : m.layers()) {
        std::string t = l.type();
        std::map<std::string, std::string> s;
        for (auto& p : l.params()) s["p:" + p.first] = shape_text(p.second.data().shape()) + shape_text(p.second.grad().shape());
        for (auto& b : l.buffers()) s["b:" + b.first] = shape_text(b.second.shape());
        for (auto& x : s) t += " " + x.first + x.second;
        by[l.name()] = t;
    }
    for (auto& b : by) o += hex_encode(b.first) + " " + b.second + "\n";
    std::map<std::string, std::string> st;
    for (auto& kv : m.state()) st[hex_encode(kv.first)] = shape_text(kv.second.shape());
    for (auto& kv : st) o += kv.first + kv.second + "\n";
    return o;
}
// Outputs in evaluation mode (the model must be compiled).
inline std::vector<std::vector<float>> eval_out(dw::Model& m, uint64_t salt) {
    m.train(false);
    std::vector<dw::Tensor> in, out;
    int k = 0;
    for (auto& p : m.inputs()) in.push_back(make_tensor(p.shape(), salt * 31 + k++));
    for (auto& p : m.outputs()) out.emplace_back(p.shape());
    m.forward(in, out);
    std::vector<std::vector<float>> r;
    for (auto& t : out) r.emplace_back(t.data(), t.data() + t.total());
    return r;
}
inline std::string out_diff(const std::vector<std::vector<float>>& a, const std::vector<std::vector<float>>& b) {
    char buf[160];
    if (a.size() != b.size()) return "another number of outputs";
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i].size() != b[i].size()) return "output " + std::to_string(i) + " has another size";
        float m = 0;
        for (float x : a[i]) if (std::isfinite(x)) m = std::max(m, std::fabs(x));
        for (size_t j = 0; j < a[i].size(); ++j) {
            if (!std::isfinite(a[i][j]) && !std::isfinite(b[i][j])) continue;
            if (!(std::fabs(a[i][j] - b[i][j]) <= 1e-4f * (std::fabs(a[i][j]) + m))) {
                snprintf(buf, sizeof buf, "output %zu[%zu]: %.9g before, %.9g after", i, j, a[i][j], b[i][j]);
                return buf;
            }
        }
    }
    return "";
}
// Odd bit patterns: infinities, NaNs with payload, denormals, negative zero.
inline void odd_bits(dw::Model& m, uint64_t seed) {
    static const uint32_t pat[] = {0x7f800000, 0xff800000, 0x7fc0beef, 0x80000000, 1, 0x807fffff, 0x7f7fffff, 0xffffffff, 0x0a0d1a00, 0x00000a0d};
    sim::Rng r(seed);
    std::map<std::string, dw::Tensor> s(m.state().begin(), m.state().end());
    for (auto& kv : s)
        for (size_t i = 0; i < kv.second.total(); ++i)
            if (r.chance(0.2)) memcpy(kv.second.data() + i, &pat[r.below(10)], 4);
}
inline std::string slurp(const std::string& p) {
    std::string o;
    FILE* f = fopen(p.c_str(), "rb");
    if (!f) return o;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n);
    fclose(f);
    return o;
}
inline void spit(const std::string& p, const std::string& d) {
    FILE* f = fopen(p.c_str(), "wb");
    if (!f) sim::violation("harness", "cannot write the scratch file");
    fwrite(d.data(), 1, d.size(), f);
    fclose(f);
}
inline sim::IoOp io_op(const std::string& s) {
    return s == "open" ? sim::IoOp::OPEN : s == "read" ? sim::IoOp::READ : s == "write" ? sim::IoOp::WRITE : s == "close" ? sim::IoOp::CLOSE : s == "rename" ? sim::IoOp::RENAME : s == "sync" ? sim::IoOp::SYNC : sim::IoOp::SEEK;
}
