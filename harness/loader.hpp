// A data set that logs every access and checks the destination it is given.
#pragma once
#include "common.hpp"
#include <deepworks/dataloader.hpp>
struct LogDataset : dw::IDataset {
    size_t n; Shape xs, ys; std::vector<int> log; std::string problem; uint32_t salt = 0;
    LogDataset(size_t n_, Shape x, Shape y) : n(n_), xs(std::move(x)), ys(std::move(y)) {}
    float xv(int i, size_t j) const { return float((uint32_t(i) * 2654435761u + uint32_t(j) * 40503u + salt) % 1000003u); }
    float yv(int i, size_t j) const { return float((uint32_t(i) * 97u + uint32_t(j) * 31u + 5u + salt) % 100003u); }
    size_t size() override { return n; }
    OutShape shape() override { return {xs, ys}; }
    void pull(int i, Tensor& X, Tensor& y) override {
        log.push_back(i);
        if (i < 0 || size_t(i) >= n) { problem = "index " + std::to_string(i) + " out of range for size " + std::to_string(n); return; }
        if (X.shape() != xs || y.shape() != ys || X.total() != prod(xs) || y.total() != prod(ys)) { problem = "destination has shape " + str(X.shape()) + "/" + str(y.shape()); return; }
        for (size_t j = 0; j < X.total(); ++j) X.data()[j] = xv(i, j);
        for (size_t j = 0; j < y.total(); ++j) y.data()[j] = yv(i, j);
    }
};
inline Shape with_batch(int b, const Shape& s) { Shape r{b}; r.insert(r.end(), s.begin(), s.end()); return r; }
inline Shape sample_shape(Rng& r, int cap) { int k = r.of({1, 1, 2, 3, 3}); Shape s; for (int i = 0; i < k; ++i) s.push_back(r.chance(1, 5) ? 1 : r.range(1, cap)); return s; }
// Batch row k of (X, y) holds exactly sample i.
inline bool holds(const LogDataset& d, const Tensor& X, const Tensor& y, int k, int i) {
    size_t nx = prod(d.xs), ny = prod(d.ys);
    for (size_t j = 0; j < nx; ++j) if (X.data()[size_t(k) * nx + j] != d.xv(i, j)) return false;
    for (size_t j = 0; j < ny; ++j) if (y.data()[size_t(k) * ny + j] != d.yv(i, j)) return false;
    return true;
}
