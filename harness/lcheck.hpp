// Monitored execution of a layer: guarded tensors, reference comparison at the call boundary.
#pragma once
#include "layers.hpp"

struct Run {
    std::vector<GT> x, gx; GT y, gy;
    std::vector<Vd> X, GX0; Vd G; RefState st; RefF f; RefB b;
    void inputs(Rng& r, const Inst& I, const Shape& in, int mode) {
        x.resize(size_t(n_in(I.s)));
        for (auto& g : x) { g.make(r, in); fill(r, g.p(), g.n, mode); g.snapshot(); }
        refresh();
        y.make(r, ref_shape(I.s, in)); y.poison();
    }
    void refresh() { X.clear(); for (auto& g : x) { X.push_back(g.dbl()); g.snapshot(); } }
    std::vector<Tensor> xt() const { std::vector<Tensor> v; for (auto& g : x) v.push_back(g.t); return v; }
    std::vector<Tensor> gxt() const { std::vector<Tensor> v; for (auto& g : gx) v.push_back(g.t); return v; }
    // forward and comparison with the reference
    bool forward(Ctx& c, Inst& I, const Shape& in, bool train, const std::string& key) {
        st = state_of(I);
        I.forward(xt(), y.t);
        f = ref_forward(I.s, in, X, st, train);
        c.count("forward_calls");
        if (f.y.size() != y.n) { c.fail(key + ":size", "reference size"); return false; }
        if (!y.canaries()) { c.fail(key + ":outside", "forward wrote outside the output tensor"); return false; }
        return check_close(c, key + ":forward", "output", y.p(), f.y, [&](size_t i) { return f.tol[i]; });
    }
    void grads(Rng& r, const Inst& I, const Shape& in, int mode, bool zero) {
        gy.make(r, ref_shape(I.s, in)); fill(r, gy.p(), gy.n, mode); G = gy.dbl(); gy.snapshot();
        gx.resize(x.size()); GX0.clear();
        for (auto& g : gx) { g.make(r, in); if (zero) std::fill_n(g.p(), g.n, 0.f); else fill(r, g.p(), g.n, mode == INTS ? INTS : SGN); GX0.push_back(g.dbl()); }
    }
    bool backward(Ctx& c, Inst& I, const Shape& in, const std::string& key, bool check_params = true) {
        I.backward(xt(), y.t, gy.t, gxt());
        b = ref_backward(I.s, in, X, st, f, G, GX0);
        c.count("backward_calls");
        for (size_t k = 0; k < gx.size(); ++k) {
            if (!gx[k].canaries()) { c.fail(key + ":outside", "backward wrote outside the input gradient"); return false; }
            if (!check_close(c, key + ":input-grad", k ? "grad of input 1" : "grad of input 0", gx[k].p(), b.gx[k], [&](size_t i) { return b.tx[k][i]; })) return false;
        }
        if (check_params) for (auto& kv : b.gp) {
            Tensor g = I.grad(kv.first.c_str()); auto& t = b.tp[kv.first];
            if (g.total() != kv.second.size()) { c.fail(key + ":param-grad", "gradient of " + kv.first + " has the wrong size"); return false; }
            if (!check_close(c, key + ":param-grad-" + kv.first, ("grad of " + kv.first).c_str(), g.data(), kv.second, [&](size_t i) { return t[i]; })) return false;
            c.count("param_grads_checked");
        }
        return true;
    }
};
// Max-pooling references need unique maxima; ReLU-like ones are unambiguous at 0 for forward only.
inline void distinct_values(Rng& r, float* p, size_t n) {
    std::vector<float> v(n); for (size_t i = 0; i < n; ++i) v[i] = (float(i) - float(n) / 2) * 0.03125f + 0.015625f;
    for (size_t i = n; i > 1; --i) std::swap(v[i - 1], v[r.next() % i]);
    std::copy(v.begin(), v.end(), p);
}
