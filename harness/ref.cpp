#include "ref.hpp"
#include <algorithm>
#include <cmath>
#include <cstdio>

int arity(const LSpec& l) { return l.type == "Add" ? 2 : 1; }

bool out_shape(const LSpec& l, const Shp& a, const Shp& b, Shp& out) {
    const std::string& t = l.type;
    if (t == "Linear") {
        if (a.size() < 2) return false;
        out = {a[0], l.units};
        return true;
    }
    if (t == "Softmax" || t == "BatchNorm1D") { out = a; return a.size() == 2; }
    if (t == "BatchNorm2D") { out = a; return a.size() == 4; }
    if (t == "GlobalAvgPooling") {
        if (a.size() != 4) return false;
        out = {a[0], a[1], 1, 1};
        return true;
    }
    if (t == "Convolution" || t == "MaxPooling") {
        if (a.size() != 4) return false;
        int h = a[2] + 2 * l.pad[0] - l.k[0], w = a[3] + 2 * l.pad[1] - l.k[1];
        if (h < 0 || w < 0) return false;
        if (t == "MaxPooling" && (2 * l.pad[0] > l.k[0] || 2 * l.pad[1] > l.k[1])) return false;
        out = {a[0], t == "Convolution" ? l.units : a[1], h / l.st[0] + 1, w / l.st[1] + 1};
        return true;
    }
    if (t == "Add") { out = a; return a == b; }
    out = a;
    return !a.empty();
}
static int flat(const Shp& s) { int n = 1; for (size_t i = 1; i < s.size(); ++i) n *= s[i]; return n; }
std::vector<std::pair<std::string, Shp>> param_shapes(const LSpec& l, const Shp& in) {
    if (l.type == "Linear") return {{"weight", {l.units, flat(in)}}, {"bias", {l.units}}};
    if (l.type == "Convolution") return {{"weight", {l.units, in[1], l.k[0], l.k[1]}}, {"bias", {l.units}}};
    if (l.type == "BatchNorm1D" || l.type == "BatchNorm2D") return {{"gamma", {in[1]}}, {"beta", {in[1]}}};
    if (l.type == "Dropout") return {{"mask", in}};
    return {};
}
std::vector<std::pair<std::string, Shp>> buffer_shapes(const LSpec& l, const Shp& in) {
    if (l.type == "BatchNorm1D" || l.type == "BatchNorm2D") return {{"running_mean", {in[1]}}, {"running_var", {in[1]}}};
    return {};
}

// index of (row r, column c) of the N x C view used by batch normalisation
static size_t bn_index(const Shp& s, size_t row, size_t c) {
    if (s.size() == 2) return row * s[1] + c;
    size_t plane = (size_t)s[2] * s[3];
    size_t n = row / plane, q = row % plane;
    return (n * s[1] + c) * plane + q;
}

bool RLayer::fwd(const DVec& a, const DVec& b, DVec& o, Noise& nz) {
    const std::string& t = sp.type;
    Shp bs = in_s;
    if (!out_shape(sp, in_s, bs, out_s)) return false;
    o.assign(numel(out_s), 0.0);
    const size_t N = a.size();
    if (t == "Linear") {
        int B = in_s[0], F = flat(in_s), U = sp.units;
        const DVec &w = par["weight"], &bi = par["bias"];
        double sq = 2 + std::sqrt((double)F);
        for (int i = 0; i < B; ++i)
            for (int u = 0; u < U; ++u) {
                double s = 0, m = 0;
                for (int f = 0; f < F; ++f) { double x = a[(size_t)i * F + f] * w[(size_t)u * F + f]; s += x; m += std::fabs(x); }
                o[(size_t)i * U + u] = nz.R(s + bi[u], m * sq + std::fabs(bi[u]));
            }
    } else if (t == "ReLU") {
        for (size_t i = 0; i < N; ++i) o[i] = a[i] > 0 ? a[i] : 0;
    } else if (t == "LeakyReLU") {
        for (size_t i = 0; i < N; ++i) o[i] = a[i] < 0 ? nz.R(a[i] * sp.alpha, std::fabs(a[i] * sp.alpha)) : a[i];
    } else if (t == "ELU") {
        for (size_t i = 0; i < N; ++i) o[i] = a[i] < 0 ? nz.R(sp.alpha * (std::exp(a[i]) - 1), 3 * std::fabs(sp.alpha)) : a[i];
    } else if (t == "Sigmoid") {
        for (size_t i = 0; i < N; ++i) { double v = 1 / (1 + std::exp(-a[i])); o[i] = nz.R(v, v * (3 + std::fabs(a[i])) + 1); }
    } else if (t == "Softmax") {
        int B = in_s[0], K = in_s[1];
        for (int i = 0; i < B; ++i) {
            double mx = a[(size_t)i * K];
            for (int k = 1; k < K; ++k) mx = std::max(mx, a[(size_t)i * K + k]);
            double s = 0;
            for (int k = 0; k < K; ++k) {
                double x = a[(size_t)i * K + k];
                double d = nz.R(x - mx, std::fabs(x) + std::fabs(mx));
                double e = std::exp(d);
                e = nz.R(e, 3 * e);
                o[(size_t)i * K + k] = e;
                s += e;
            }
            s = nz.R(s, s * (2 + std::sqrt((double)K)));
            for (int k = 0; k < K; ++k) o[(size_t)i * K + k] = nz.R(o[(size_t)i * K + k] / s, 2 * o[(size_t)i * K + k] / s);
        }
    } else if (t == "BatchNorm1D" || t == "BatchNorm2D") {
        int C = in_s[1];
        size_t rows = N / C;
        const DVec &g = par["gamma"], &be = par["beta"];
        DVec &rm = buf["running_mean"], &rv = buf["running_var"];
        fwd_train = train;
        xc.assign(N, 0);
        sd.assign(C, 0);
        double sq = 2 + std::sqrt((double)rows);
        for (int c = 0; c < C; ++c) {
            double mean, var;
            if (train) {
                double s = 0, m = 0;
                for (size_t r = 0; r < rows; ++r) { double x = a[bn_index(in_s, r, c)]; s += x; m += std::fabs(x); }
                mean = nz.R(s / rows, m / rows * sq);
            } else mean = rm[c];
            double v2 = 0;
            for (size_t r = 0; r < rows; ++r) {
                size_t i = bn_index(in_s, r, c);
                xc[i] = nz.R(a[i] - mean, std::fabs(a[i]) + std::fabs(mean));
                v2 += xc[i] * xc[i];
            }
            if (train) {
                var = nz.R(v2 / rows, v2 / rows * sq);
                rm[c] = nz.R(rm[c] * sp.alpha + mean * (1 - (double)sp.alpha), 2 * (std::fabs(rm[c]) + std::fabs(mean)));
                rv[c] = nz.R(rv[c] * sp.alpha + var * (1 - (double)sp.alpha), 2 * (std::fabs(rv[c]) + std::fabs(var)));
            } else var = rv[c];
            double s = std::sqrt(var + sp.eps);
            sd[c] = nz.R(s, 3 * s);
            for (size_t r = 0; r < rows; ++r) {
                size_t i = bn_index(in_s, r, c);
                double v = xc[i] * g[c] / sd[c];
                o[i] = nz.R(v + be[c], 3 * std::fabs(v) + std::fabs(be[c]));
            }
        }
    } else if (t == "Convolution" || t == "MaxPooling") {
        bool conv = t == "Convolution";
        int B = in_s[0], C = in_s[1], H = in_s[2], W = in_s[3], O = out_s[1], OH = out_s[2], OW = out_s[3];
        if (!conv) argmax.assign(numel(out_s), -1);
        static const DVec none;
        const DVec& wt = conv ? par["weight"] : none;
        const DVec& bs_ = conv ? par["bias"] : none;
        double sq = 2 + std::sqrt((double)C * sp.k[0] * sp.k[1]);
        for (int n = 0; n < B; ++n)
            for (int c = 0; c < O; ++c)
                for (int y = 0; y < OH; ++y)
                    for (int x = 0; x < OW; ++x) {
                        size_t oi = (((size_t)n * O + c) * OH + y) * OW + x;
                        double s = 0, m = 0, best = -INFINITY;
                        int bi = -1;
                        for (int ic = conv ? 0 : c; ic < (conv ? C : c + 1); ++ic)
                            for (int i = 0; i < sp.k[0]; ++i)
                                for (int j = 0; j < sp.k[1]; ++j) {
                                    int yy = y * sp.st[0] - sp.pad[0] + i, xx = x * sp.st[1] - sp.pad[1] + j;
                                    if (yy < 0 || yy >= H || xx < 0 || xx >= W) continue;
                                    size_t ii = (((size_t)n * C + ic) * H + yy) * W + xx;
                                    if (conv) {
                                        double v = a[ii] * wt[(((size_t)c * C + ic) * sp.k[0] + i) * sp.k[1] + j];
                                        s += v;
                                        m += std::fabs(v);
                                    } else if (bi < 0 || a[ii] > best || (a[ii] == best && nz.on && nz.rng.chance(0.5))) {
                                        best = a[ii];
                                        bi = (int)ii;
                                    }
                                }
                        if (conv) o[oi] = nz.R(s + bs_[c], m * sq + std::fabs(bs_[c]));
                        else { o[oi] = best; argmax[oi] = bi; }
                    }
    } else if (t == "GlobalAvgPooling") {
        size_t pl = (size_t)in_s[2] * in_s[3];
        for (size_t i = 0; i < o.size(); ++i) {
            double s = 0, m = 0;
            for (size_t j = 0; j < pl; ++j) { s += a[i * pl + j]; m += std::fabs(a[i * pl + j]); }
            o[i] = nz.R(s / pl, m / pl * (2 + std::sqrt((double)pl)));
        }
    } else if (t == "Add") {
        for (size_t i = 0; i < N; ++i) o[i] = nz.R(a[i] + b[i], std::fabs(a[i]) + std::fabs(b[i]));
    } else if (t == "Dropout") {
        for (size_t i = 0; i < N; ++i) {
            if (keep.empty()) o[i] = a[i];
            else { double v = keep[i] ? a[i] / (1 - (double)sp.p) : 0; o[i] = nz.R(v, 8 * std::fabs(v)); }
        }
    } else return false;
    return true;
}

void RLayer::bwd(const DVec& a, const DVec& o, const DVec& go, DVec* ga, DVec* gb, DMap& pg, Noise& nz) {
    const std::string& t = sp.type;
    const size_t N = a.size();
    auto add = [&](DVec* g, size_t i, double v, double mag) { if (g) (*g)[i] = nz.R((*g)[i] + v, mag + std::fabs((*g)[i])); };
    if (t == "Linear") {
        int B = in_s[0], F = flat(in_s), U = sp.units;
        const DVec& w = par["weight"];
        DVec &gw = pg["weight"], &gbi = pg["bias"];
        gw.assign((size_t)U * F, 0);
        gbi.assign(U, 0);
        double sb = 2 + std::sqrt((double)B), su = 2 + std::sqrt((double)U);
        for (int u = 0; u < U; ++u) {
            double s = 0, m = 0;
            for (int i = 0; i < B; ++i) { s += go[(size_t)i * U + u]; m += std::fabs(go[(size_t)i * U + u]); }
            gbi[u] = nz.R(s, m * sb);
            for (int f = 0; f < F; ++f) {
                s = m = 0;
                for (int i = 0; i < B; ++i) { double x = go[(size_t)i * U + u] * a[(size_t)i * F + f]; s += x; m += std::fabs(x); }
                gw[(size_t)u * F + f] = nz.R(s, m * sb);
            }
        }
        for (int i = 0; i < B; ++i)
            for (int f = 0; f < F; ++f) {
                double s = 0, m = 0;
                for (int u = 0; u < U; ++u) { double x = go[(size_t)i * U + u] * w[(size_t)u * F + f]; s += x; m += std::fabs(x); }
                add(ga, (size_t)i * F + f, s, m * su);
            }
    } else if (t == "ReLU") {
        for (size_t i = 0; i < N; ++i) add(ga, i, a[i] > 0 ? go[i] : 0, std::fabs(go[i]));
    } else if (t == "LeakyReLU") {
        for (size_t i = 0; i < N; ++i) add(ga, i, a[i] < 0 ? go[i] * sp.alpha : go[i], 2 * std::fabs(go[i]));
    } else if (t == "ELU") {
        for (size_t i = 0; i < N; ++i) {
            double d = a[i] < 0 ? sp.alpha * std::exp(a[i]) : 1;
            add(ga, i, go[i] * d, 4 * std::fabs(go[i] * d) * (1 + std::fabs(a[i])) + (a[i] < 0 ? 3 * std::fabs(go[i] * sp.alpha) : 0));   // exp(x) or out + alpha
        }
    } else if (t == "Sigmoid") {
        for (size_t i = 0; i < N; ++i) add(ga, i, go[i] * o[i] * (1 - o[i]), 4 * std::fabs(go[i] * o[i]));
    } else if (t == "Softmax") {
        int B = in_s[0], K = in_s[1];
        for (int i = 0; i < B; ++i) {
            double s = 0, m = 0;
            for (int k = 0; k < K; ++k) { double x = go[(size_t)i * K + k] * o[(size_t)i * K + k]; s += x; m += std::fabs(x); }
            s = nz.R(s, m * (2 + std::sqrt((double)K)));
            for (int k = 0; k < K; ++k) {
                double g = go[(size_t)i * K + k], y = o[(size_t)i * K + k];
                add(ga, (size_t)i * K + k, y * (g - s), 3 * y * (std::fabs(g) + std::fabs(s)));
            }
        }
    } else if (t == "BatchNorm1D" || t == "BatchNorm2D") {
        int C = in_s[1];
        size_t rows = N / C;
        const DVec& g = par["gamma"];
        DVec &gg = pg["gamma"], &gbe = pg["beta"];
        gg.assign(C, 0);
        gbe.assign(C, 0);
        double sq = 2 + std::sqrt((double)rows);
        for (int c = 0; c < C; ++c) {
            double s1 = 0, m1 = 0, s2 = 0, m2 = 0;
            for (size_t r = 0; r < rows; ++r) {
                size_t i = bn_index(in_s, r, c);
                s1 += go[i];
                m1 += std::fabs(go[i]);
                double x = xc[i] / sd[c] * go[i];
                s2 += x;
                m2 += std::fabs(x);
            }
            s1 = nz.R(s1, m1 * sq);
            s2 = nz.R(s2, 3 * m2 * sq);
            gbe[c] = s1;
            gg[c] = s2;
            double k = g[c] / sd[c];
            for (size_t r = 0; r < rows; ++r) {
                size_t i = bn_index(in_s, r, c);
                if (fwd_train) {
                    double v1 = s1 / rows, v2 = xc[i] / sd[c] * s2 / rows;
                    add(ga, i, k * (go[i] - v1 - v2), 6 * std::fabs(k) * (std::fabs(go[i]) + m1 / rows * sq + std::fabs(xc[i] / sd[c]) * m2 / rows * sq));
                } else add(ga, i, k * go[i], 4 * std::fabs(k * go[i]));
            }
        }
    } else if (t == "Convolution" || t == "MaxPooling") {
        bool conv = t == "Convolution";
        int B = in_s[0], C = in_s[1], H = in_s[2], W = in_s[3], O = out_s[1], OH = out_s[2], OW = out_s[3];
        if (!conv) {
            for (size_t i = 0; i < go.size(); ++i) if (argmax[i] >= 0) add(ga, argmax[i], go[i], 2 * std::fabs(go[i]));
            return;
        }
        const DVec& w = par["weight"];
        DVec &gw = pg["weight"], &gbi = pg["bias"];
        gw.assign(w.size(), 0);
        gbi.assign(O, 0);
        DVec mw(w.size(), 0), mb(O, 0), gi(N, 0), mi(N, 0);
        for (int n = 0; n < B; ++n)
            for (int c = 0; c < O; ++c)
                for (int y = 0; y < OH; ++y)
                    for (int x = 0; x < OW; ++x) {
                        double g = go[(((size_t)n * O + c) * OH + y) * OW + x];
                        gbi[c] += g;
                        mb[c] += std::fabs(g);
                        for (int ic = 0; ic < C; ++ic)
                            for (int i = 0; i < sp.k[0]; ++i)
                                for (int j = 0; j < sp.k[1]; ++j) {
                                    int yy = y * sp.st[0] - sp.pad[0] + i, xx = x * sp.st[1] - sp.pad[1] + j;
                                    if (yy < 0 || yy >= H || xx < 0 || xx >= W) continue;
                                    size_t ii = (((size_t)n * C + ic) * H + yy) * W + xx;
                                    size_t wi = (((size_t)c * C + ic) * sp.k[0] + i) * sp.k[1] + j;
                                    gw[wi] += g * a[ii];
                                    mw[wi] += std::fabs(g * a[ii]);
                                    gi[ii] += g * w[wi];
                                    mi[ii] += std::fabs(g * w[wi]);
                                }
                    }
        double sq = 2 + std::sqrt((double)B * OH * OW);
        for (size_t i = 0; i < gw.size(); ++i) gw[i] = nz.R(gw[i], mw[i] * sq);
        for (int c = 0; c < O; ++c) gbi[c] = nz.R(gbi[c], mb[c] * sq);
        double s2 = 2 + std::sqrt((double)O * sp.k[0] * sp.k[1]);
        for (size_t i = 0; i < N; ++i) add(ga, i, gi[i], mi[i] * s2);
    } else if (t == "GlobalAvgPooling") {
        size_t pl = (size_t)in_s[2] * in_s[3];
        for (size_t i = 0; i < N; ++i) add(ga, i, go[i / pl] / pl, 2 * std::fabs(go[i / pl]) / pl);
    } else if (t == "Add") {
        for (size_t i = 0; i < N; ++i) {
            add(ga, i, go[i], std::fabs(go[i]));
            add(gb, i, go[i], std::fabs(go[i]));
        }
    } else if (t == "Dropout") {
        for (size_t i = 0; i < N; ++i) {
            double v = keep.empty() ? go[i] : keep[i] ? go[i] / (1 - (double)sp.p) : 0;
            add(ga, i, v, 8 * std::fabs(v));
        }
    }
}

bool near_kink(const RLayer& l, const DVec& a, double noise) {
    const std::string& t = l.sp.type;
    double z = 40 * noise;
    if (t == "ReLU" || t == "LeakyReLU" || t == "ELU") {
        for (double x : a) if (x != 0 && std::fabs(x) <= z) return true;
        if (noise > 0)          // an exact zero that is a coincidence of rounding, not of construction
            for (double x : a) if (x == 0 && noise > 1e-12 && t != "ReLU" && l.sp.alpha != 1.f) return true;
        return false;
    }
    if (t == "MaxPooling") {
        int B = l.in_s[0], C = l.in_s[1], H = l.in_s[2], W = l.in_s[3], OH = l.out_s[2], OW = l.out_s[3];
        for (int n = 0; n < B * C; ++n)
            for (int y = 0; y < OH; ++y)
                for (int x = 0; x < OW; ++x) {
                    int am = l.argmax[((size_t)n * OH + y) * OW + x];
                    if (am < 0) continue;
                    for (int i = 0; i < l.sp.k[0]; ++i)
                        for (int j = 0; j < l.sp.k[1]; ++j) {
                            int yy = y * l.sp.st[0] - l.sp.pad[0] + i, xx = x * l.sp.st[1] - l.sp.pad[1] + j;
                            if (yy < 0 || yy >= H || xx < 0 || xx >= W) continue;
                            int ii = (n * H + yy) * W + xx;
                            if (ii == am) continue;
                            double gap = a[am] - a[ii];
                            if (gap == 0 && a[am] == 0) continue;          // zeros by construction: see fwd
                            if (gap <= z) return true;
                        }
                }
    }
    return false;
}

bool differs(const Obs& o, const float* v, size_t n, std::string& why) {
    char b[256];
    if (n != o.ref.size()) {
        snprintf(b, sizeof b, "%s has %zu elements instead of %zu", o.name.c_str(), n, o.ref.size());
        why = b;
        return true;
    }
    for (size_t i = 0; i < n; ++i) {
        double d = std::fabs((double)v[i] - o.ref[i]);
        if (!(d <= o.tol[i]) && !(std::isinf(o.tol[i]) || std::isnan(o.tol[i]) || std::isnan(o.ref[i]))) {
            snprintf(b, sizeof b, "%s[%zu of %zu] = %.9g, reference %.9g (tolerance %.3g)", o.name.c_str(), i, n, v[i], o.ref[i], o.tol[i]);
            why = b;
            return true;
        }
    }
    return false;
}
