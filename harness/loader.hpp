#pragma once
#include "net.hpp"
#include <cmath>
#include <stdexcept>
// A dataset whose samples carry their index, and which can be told to fail.
struct SimDataset : dw::IDataset {
    int n;
    Shp xs, ys;
    long pulls = 0, fail_at = -1, fail_len = 0;       // pulls [fail_at, fail_at+fail_len) throw
    bool junk = false;                                 // a failing pull scribbles before it throws
    std::vector<int> log;                              // indices asked for since the last clear
    std::string bad;                                   // protocol errors seen
    SimDataset(int n, Shp x, Shp y) : n(n), xs(x), ys(y) {}
    static float xval(int idx, size_t j) { return (float)(idx * 64 + (int)(j % 61)) + 0.5f; }
    static float yval(int idx, size_t j) { return -(float)(idx * 64 + (int)(j % 61)) - 0.25f; }
    size_t size() override { return (size_t)n; }
    OutShape shape() override { return {dw::Shape(xs), dw::Shape(ys)}; }
    void pull(int idx, dw::Tensor& X, dw::Tensor& y) override {
        long k = pulls++;
        if (idx < 0 || idx >= n) bad = "sample " + std::to_string(idx) + " of a dataset of " + std::to_string(n) + " was requested";
        else if (X.total() != numel(xs) || y.total() != numel(ys) || Shp(X.shape()) != xs || Shp(y.shape()) != ys) bad = "slices of the wrong shape were passed to the dataset";
        if (!bad.empty()) throw std::runtime_error("bad pull");
        if (k >= fail_at && k < fail_at + fail_len && fail_at >= 0) {
            if (junk) for (size_t j = 0; j < X.total(); ++j) X.data()[j] = -7e7f;
            sim::count("fault: dataset throws");
            throw std::runtime_error("sample unreadable");
        }
        log.push_back(idx);
        for (size_t j = 0; j < X.total(); ++j) X.data()[j] = xval(idx, j);
        for (size_t j = 0; j < y.total(); ++j) y.data()[j] = yval(idx, j);
    }
    // Which samples a delivered batch holds; violation if rows are torn or labels do not belong.
    std::vector<int> decode(const dw::Tensor& X, const dw::Tensor& y, int batch, const char* cls) const {
        std::vector<int> out;
        size_t nx = numel(xs), ny = numel(ys);
        if (X.total() != nx * batch || y.total() != ny * batch) sim::violation(cls, "delivered tensors hold %zu and %zu values, a batch has %zu and %zu", X.total(), y.total(), nx * batch, ny * batch);
        for (int b = 0; b < batch; ++b) {
            int idx = (int)std::floor(X.data()[b * nx] / 64);
            if (idx < 0 || idx >= n) sim::violation(cls, "row %d of the batch holds no sample (%.9g)", b, X.data()[b * nx]);
            for (size_t j = 0; j < nx; ++j) if (X.data()[b * nx + j] != xval(idx, j)) sim::violation(cls, "row %d of the batch mixes samples: element %zu is %.9g, sample %d has %.9g", b, j, X.data()[b * nx + j], idx, xval(idx, j));
            for (size_t j = 0; j < ny; ++j) if (y.data()[b * ny + j] != yval(idx, j)) sim::violation(cls, "row %d: label of sample %d is %.9g instead of %.9g", b, idx, y.data()[b * ny + j], yval(idx, j));
            out.push_back(idx);
        }
        return out;
    }
};
