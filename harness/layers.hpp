// Layer specifications, construction of the real layers, and an independent double-precision model of
// every layer (forward, vector-Jacobian product, parameter gradients) with rounding bounds.
#pragma once
#include "common.hpp"
#include <deepworks/nn.hpp>
#include <deepworks/layer_info.hpp>
#include <deepworks/parameter.hpp>
#include "runtime/cpu/layers/cpulayer.hpp"

using dw::LayerInfo; using dw::Placeholder; using dw::Placeholders;
typedef std::array<int, 2> A2;

enum LT { LINEAR, RELU, LEAKY, ELU_, SIGMOID, SOFTMAX, BN1, BN2, MAXPOOL, CONV, GAP, DROPOUT, ADD, NLT };
inline const char* lt_name(int t) {
    static const char* n[] = {"Linear", "ReLU", "LeakyReLU", "ELU", "Sigmoid", "Softmax", "BatchNorm1D", "BatchNorm2D", "MaxPooling", "Convolution", "GlobalAvgPooling", "Dropout", "Add"};
    return n[t];
}

struct Spec {
    int t = RELU, units = 1;             // units: also output channels
    float alpha = 0.1f, eps = 1e-5f, p = 0.5f;
    A2 k{1, 1}, pad{0, 0}, st{1, 1};
    std::string name;
    std::string str() const {
        char b[200];
        switch (t) {
            case LINEAR: snprintf(b, sizeof b, "Linear(%d)", units); break;
            case LEAKY: case ELU_: snprintf(b, sizeof b, "%s(%g)", lt_name(t), alpha); break;
            case BN1: case BN2: snprintf(b, sizeof b, "%s(eps=%g,alpha=%g)", lt_name(t), eps, alpha); break;
            case MAXPOOL: snprintf(b, sizeof b, "MaxPooling(k=%dx%d,p=%dx%d,s=%dx%d)", k[0], k[1], pad[0], pad[1], st[0], st[1]); break;
            case CONV: snprintf(b, sizeof b, "Convolution(%d,k=%dx%d,p=%dx%d,s=%dx%d)", units, k[0], k[1], pad[0], pad[1], st[0], st[1]); break;
            case DROPOUT: snprintf(b, sizeof b, "Dropout(%g)", p); break;
            default: snprintf(b, sizeof b, "%s", lt_name(t));
        }
        return b;
    }
};
inline int n_in(const Spec& s) { return s.t == ADD ? 2 : 1; }
inline bool has_params(const Spec& s) { return s.t == LINEAR || s.t == CONV || s.t == BN1 || s.t == BN2; }
inline bool is_bn(const Spec& s) { return s.t == BN1 || s.t == BN2; }
inline bool is4d(const Spec& s) { return s.t == BN2 || s.t == MAXPOOL || s.t == CONV || s.t == GAP; }
inline bool is2d(const Spec& s) { return s.t == SOFTMAX || s.t == BN1; }

inline int win(int in, int k, int p, int s) { return (in + 2 * p - k) / s + 1; }
inline Shape ref_shape(const Spec& s, const Shape& in) {
    switch (s.t) {
        case LINEAR: return {in[0], s.units};
        case MAXPOOL: return {in[0], in[1], win(in[2], s.k[0], s.pad[0], s.st[0]), win(in[3], s.k[1], s.pad[1], s.st[1])};
        case CONV: return {in[0], s.units, win(in[2], s.k[0], s.pad[0], s.st[0]), win(in[3], s.k[1], s.pad[1], s.st[1])};
        case GAP: return {in[0], in[1], 1, 1};
        default: return in;
    }
}

// Direct construction through the public classes.
template <class Op> Placeholder apply_op(Op&& op, const Placeholders& in, LayerInfo* info) {
    Placeholder r = op(in[0]);
    if (info) *info = op.m_info;
    return r;
}
inline Placeholder build(const Spec& s, const Placeholders& in, LayerInfo* info = nullptr) {
    switch (s.t) {
        case LINEAR: return apply_op(dw::Linear(s.units, s.name), in, info);
        case RELU: return apply_op(dw::ReLU(s.name), in, info);
        case LEAKY: return apply_op(dw::LeakyReLU(s.alpha, s.name), in, info);
        case ELU_: return apply_op(dw::ELU(s.alpha, s.name), in, info);
        case SIGMOID: return apply_op(dw::Sigmoid(s.name), in, info);
        case SOFTMAX: return apply_op(dw::Softmax(s.name), in, info);
        case BN1: return apply_op(dw::BatchNorm1D(s.eps, s.alpha, s.name), in, info);
        case BN2: return apply_op(dw::BatchNorm2D(s.eps, s.alpha, s.name), in, info);
        case MAXPOOL: return apply_op(dw::MaxPooling(s.k, s.pad, s.st, s.name), in, info);
        case CONV: return apply_op(dw::Convolution(s.units, s.k, s.pad, s.st, s.name), in, info);
        case GAP: return apply_op(dw::GlobalAvgPooling(s.name), in, info);
        case DROPOUT: return apply_op(dw::Dropout(s.p, s.name), in, info);
        default: { dw::Add op(s.name); Placeholder r = op(in[0], in[1]); if (info) *info = op.m_info; return r; }
    }
}
inline dw::Attributes attrs_of(const Spec& s) {
    dw::Attributes a;
    switch (s.t) {
        case LINEAR: a["units"] = int(s.units); break;
        case LEAKY: case ELU_: a["alpha"] = float(s.alpha); break;
        case BN1: case BN2: a["eps"] = float(s.eps); a["alpha"] = float(s.alpha); break;
        case CONV: a["out_channels"] = int(s.units); [[fallthrough]];
        case MAXPOOL: a["kernel"] = A2(s.k); a["padding"] = A2(s.pad); a["stride"] = A2(s.st); break;
        case DROPOUT: a["p"] = float(s.p); break;
        default: break;
    }
    return a;
}

// One real layer instance.
struct Inst {
    Spec s; LayerInfo info; dw::cpu::ICPULayer::Ptr l; Shape in, out;
    Inst() = default;
    Inst(const Spec& sp, const Shape& in_) : s(sp), in(in_) {
        Placeholders ph; for (int i = 0; i < n_in(s); ++i) ph.push_back(Placeholder(in));
        out = build(s, ph, &info).shape();
        l = dw::cpu::ICPULayer::create(info);
    }
    Inst(const Spec& sp, const LayerInfo& i, const Shape& in_, const Shape& out_) : s(sp), info(i), in(in_), out(out_) { l = dw::cpu::ICPULayer::create(info); }
    Tensor param(const char* n) const { return info.params().at(n).data(); }
    Tensor grad(const char* n) const { return info.params().at(n).grad(); }
    Tensor buffer(const char* n) const { return info.buffers().at(n); }
    void train(bool m) { for (auto& kv : info.impl().params) kv.second.train(m); }
    void forward(const std::vector<Tensor>& x, Tensor y) { std::vector<Tensor> o{y}; l->forward(x, o); }
    void backward(const std::vector<Tensor>& x, Tensor y, Tensor gy, std::vector<Tensor> gx, bool params = true) {
        std::vector<Tensor> o{y}, go{gy};
        if (params) l->updateGradients(x, go);
        l->backward(x, o, go, gx);
    }
};
inline void randomize(Rng& r, Inst& I, int mode, double scale = 1) {
    std::vector<std::string> names; for (auto& kv : I.info.impl().params) names.push_back(kv.first);
    std::sort(names.begin(), names.end());
    for (auto& n : names) {
        if (n == "mask") continue;
        Tensor t = I.info.impl().params.at(n).data();
        fill(r, t.data(), t.total(), mode);
        if (mode != INTS && scale != 1) for (size_t i = 0; i < t.total(); ++i) t.data()[i] = float(t.data()[i] * scale);
    }
}
// Poisons the parameter gradients (they must be overwritten).
inline void poison_grads(Rng& r, Inst& I) {
    for (auto& kv : I.info.impl().params) { Tensor g = kv.second.grad(); for (size_t i = 0; i < g.total(); ++i) g.data()[i] = float(r.real(-50, 50)); }
}

// ------------------------------------------------------------------ the reference
typedef std::vector<double> Vd;
struct RefState { Vd w, b, gamma, beta, rmean, rvar; };
inline RefState state_of(const Inst& I) {
    RefState r;
    if (I.s.t == LINEAR || I.s.t == CONV) { r.w = dbl(I.param("weight")); r.b = dbl(I.param("bias")); }
    if (is_bn(I.s)) { r.gamma = dbl(I.param("gamma")); r.beta = dbl(I.param("beta")); r.rmean = dbl(I.buffer("running_mean")); r.rvar = dbl(I.buffer("running_var")); }
    return r;
}
struct RefF {
    Vd y, tol;
    Vd ry_mean, ry_var, tmean, tvar;     // batch-norm running statistics after the step and their bounds
    Vd mean, var, istd, dxh, rstd;       // batch norm: per feature; dxh = bound on the error of x-hat per element
    Vd xh;
    double margin = 1e300;               // distance to the nearest kink (ReLU zero, pooling tie)
    bool train = true;
};
struct RefB { std::vector<Vd> gx, tx; std::map<std::string, Vd> gp, tp; };

struct BNGeo { int n, c, plane, feat; };                   // element (i, f): i over samples
inline size_t bn_idx(const Spec& s, const Shape& in, int i, int f) {
    if (s.t == BN1) return size_t(i) * in[1] + f;
    int P = in[2] * in[3];
    return (size_t(i / P) * in[1] + f) * P + i % P;
}
inline int bn_n(const Spec& s, const Shape& in) { return s.t == BN1 ? in[0] : in[0] * in[2] * in[3]; }

inline RefF ref_forward(const Spec& s, const Shape& in, const std::vector<Vd>& X, const RefState& st, bool train) {
    RefF r; r.train = train;
    const Vd& x = X[0];
    size_t n = x.size();
    const double TINY = 1e-37;
    switch (s.t) {
        case RELU: r.y.resize(n); r.tol.assign(n, 0); for (size_t i = 0; i < n; ++i) { r.y[i] = x[i] > 0 ? x[i] : 0; r.margin = std::min(r.margin, std::fabs(x[i])); } break;
        case LEAKY: r.y.resize(n); r.tol.resize(n); for (size_t i = 0; i < n; ++i) { r.y[i] = x[i] < 0 ? x[i] * double(s.alpha) : x[i]; r.tol[i] = x[i] < 0 ? 2 * EPS * std::fabs(r.y[i]) + 3e-45 : 0; r.margin = std::min(r.margin, std::fabs(x[i])); } break;
        case ELU_: r.y.resize(n); r.tol.resize(n); for (size_t i = 0; i < n; ++i) { r.y[i] = x[i] < 0 ? double(s.alpha) * std::expm1(x[i]) : x[i]; r.tol[i] = x[i] < 0 ? 8 * EPS * std::fabs(double(s.alpha)) + TINY : 0; if (s.alpha != 1.f) r.margin = std::min(r.margin, std::fabs(x[i])); } break;
        case SIGMOID: r.y.resize(n); r.tol.resize(n); for (size_t i = 0; i < n; ++i) { r.y[i] = 1 / (1 + std::exp(-x[i])); r.tol[i] = r.y[i] * (16 + std::fabs(x[i])) * EPS + TINY; } break;
        case SOFTMAX: {
            int R = in[0], C = in[1]; r.y.resize(n); r.tol.resize(n);
            for (int i = 0; i < R; ++i) {
                const double* p = &x[size_t(i) * C]; double m = *std::max_element(p, p + C), z = 0, za = 0;
                for (int j = 0; j < C; ++j) { double e = std::exp(p[j] - m); z += e; za += e * std::fabs(p[j] - m); }
                za /= z;                                    // mean |x-max| under the distribution
                for (int j = 0; j < C; ++j) {
                    double e = std::exp(p[j] - m) / z; r.y[size_t(i) * C + j] = e;
                    r.tol[size_t(i) * C + j] = e * (C + 6 + 2 * std::fabs(p[j] - m) + 2 * za) * EPS + TINY;
                }
            }
            break;
        }
        case ADD: r.y.resize(n); r.tol.resize(n); for (size_t i = 0; i < n; ++i) { r.y[i] = x[i] + X[1][i]; r.tol[i] = EPS * std::fabs(r.y[i]) + 1e-44; } break;
        case DROPOUT: r.y = x; r.tol.assign(n, 0); break;    // evaluation mode only
        case LINEAR: {
            int N = in[0]; size_t K = N ? n / N : 0; int U = s.units; r.y.resize(size_t(N) * U); r.tol.resize(r.y.size());
            for (int i = 0; i < N; ++i) for (int u = 0; u < U; ++u) {
                double a = 0, m = 0; const double* xp = &x[size_t(i) * K]; const double* wp = &st.w[size_t(u) * K];
                for (size_t k = 0; k < K; ++k) { double t = xp[k] * wp[k]; a += t; m += std::fabs(t); }
                a += st.b[u]; m += std::fabs(st.b[u]);
                r.y[size_t(i) * U + u] = a; r.tol[size_t(i) * U + u] = (K + 8) * EPS * m + TINY;
            }
            break;
        }
        case CONV: {
            int N = in[0], C = in[1], H = in[2], W = in[3], O = s.units; Shape o = ref_shape(s, in); int HO = o[2], WO = o[3];
            r.y.resize(prod(o)); r.tol.resize(r.y.size());
            double terms = double(C) * s.k[0] * s.k[1];
            size_t q = 0;
            for (int b = 0; b < N; ++b) for (int oc = 0; oc < O; ++oc) for (int y = 0; y < HO; ++y) for (int xx = 0; xx < WO; ++xx, ++q) {
                double a = st.b[oc], m = std::fabs(a);
                for (int c = 0; c < C; ++c) for (int ky = 0; ky < s.k[0]; ++ky) {
                    int iy = y * s.st[0] - s.pad[0] + ky; if (iy < 0 || iy >= H) continue;
                    for (int kx = 0; kx < s.k[1]; ++kx) {
                        int ix = xx * s.st[1] - s.pad[1] + kx; if (ix < 0 || ix >= W) continue;
                        double t = x[((size_t(b) * C + c) * H + iy) * W + ix] * st.w[((size_t(oc) * C + c) * s.k[0] + ky) * s.k[1] + kx];
                        a += t; m += std::fabs(t);
                    }
                }
                r.y[q] = a; r.tol[q] = (terms + 8) * EPS * m + TINY;
            }
            break;
        }
        case MAXPOOL: {
            int H = in[2], W = in[3]; Shape o = ref_shape(s, in); int HO = o[2], WO = o[3];
            r.y.resize(prod(o)); r.tol.assign(r.y.size(), 0); size_t q = 0;
            for (int pl = 0; pl < in[0] * in[1]; ++pl) for (int y = 0; y < HO; ++y) for (int xx = 0; xx < WO; ++xx, ++q) {
                double m = -INFINITY, second = -INFINITY;
                for (int ky = 0; ky < s.k[0]; ++ky) { int iy = y * s.st[0] - s.pad[0] + ky; if (iy < 0 || iy >= H) continue;
                    for (int kx = 0; kx < s.k[1]; ++kx) { int ix = xx * s.st[1] - s.pad[1] + kx; if (ix < 0 || ix >= W) continue;
                        double v = x[(size_t(pl) * H + iy) * W + ix]; if (v > m) { second = m; m = v; } else if (v > second) second = v; } }
                r.y[q] = m; r.margin = std::min(r.margin, m - second);
            }
            break;
        }
        case GAP: {
            size_t P = size_t(in[2]) * in[3]; r.y.resize(size_t(in[0]) * in[1]); r.tol.resize(r.y.size());
            for (size_t q = 0; q < r.y.size(); ++q) { double a = 0, m = 0; for (size_t i = 0; i < P; ++i) { a += x[q * P + i]; m += std::fabs(x[q * P + i]); } r.y[q] = a / P; r.tol[q] = (P + 4) * EPS * m / P + TINY; }
            break;
        }
        case BN1: case BN2: {
            int F = in[1], M = bn_n(s, in); r.y.resize(n); r.tol.resize(n); r.xh.resize(n); r.dxh.resize(n);
            r.mean.resize(F); r.var.resize(F); r.istd.resize(F); r.rstd.resize(F);
            r.ry_mean = st.rmean; r.ry_var = st.rvar; r.tmean.assign(F, 0); r.tvar.assign(F, 0);
            double e = s.eps, al = s.alpha, u = EPS;
            for (int f = 0; f < F; ++f) {
                double mean, var, dmean, dvar, mx = 0;
                if (train) {
                    double a = 0, ma = 0; for (int i = 0; i < M; ++i) { double v = x[bn_idx(s, in, i, f)]; a += v; ma += std::fabs(v); mx = std::max(mx, std::fabs(v)); }
                    mean = a / M; ma /= M; dmean = (M + 4) * u * ma;
                    double v2 = 0, c1 = 0; for (int i = 0; i < M; ++i) { double c = x[bn_idx(s, in, i, f)] - mean; v2 += c * c; c1 += std::fabs(c); }
                    var = v2 / M; c1 /= M;
                    double dxc = dmean + u * (mx + std::fabs(mean));
                    dvar = 2 * c1 * dxc + dxc * dxc + (M + 4) * u * var;
                    r.ry_mean[f] = st.rmean[f] * al + mean * (1 - al);
                    r.ry_var[f]  = st.rvar[f] * al + var * (1 - al);
                    r.tmean[f] = 2 * (dmean * std::fabs(1 - al) + 4 * u * (std::fabs(st.rmean[f] * al) + std::fabs(mean * (1 - al)))) + 1e-37;
                    r.tvar[f]  = 2 * (dvar * std::fabs(1 - al) + 4 * u * (std::fabs(st.rvar[f] * al) + std::fabs(var * (1 - al)))) + 1e-37;
                } else { mean = st.rmean[f]; var = st.rvar[f]; dmean = 0; dvar = 0; }
                double sd = std::sqrt(var + e); r.mean[f] = mean; r.var[f] = var; r.istd[f] = 1 / sd;
                double rstd = std::min(1.0, dvar / (2 * (var + e)) * 1.2 + 4 * u); r.rstd[f] = rstd;
                for (int i = 0; i < M; ++i) {
                    size_t q = bn_idx(s, in, i, f); double xc = x[q] - mean, dxc = dmean + u * (std::fabs(x[q]) + std::fabs(mean));
                    r.xh[q] = xc / sd; r.dxh[q] = 2 * (dxc / sd + std::fabs(r.xh[q]) * (rstd + 2 * u));
                    r.y[q] = r.xh[q] * st.gamma[f] + st.beta[f];
                    r.tol[q] = r.dxh[q] * std::fabs(st.gamma[f]) + 8 * u * (std::fabs(r.xh[q] * st.gamma[f]) + std::fabs(st.beta[f])) + TINY;
                }
            }
            break;
        }
    }
    return r;
}

// gx0: what the input gradients held before (added to the result).
inline RefB ref_backward(const Spec& s, const Shape& in, const std::vector<Vd>& X, const RefState& st, const RefF& f, const Vd& g, const std::vector<Vd>& gx0) {
    RefB r; r.gx = gx0; r.tx.resize(gx0.size());
    const Vd& x = X[0]; size_t n = x.size();
    for (size_t i = 0; i < gx0.size(); ++i) r.tx[i].assign(gx0[i].size(), 0);
    Vd& gx = r.gx[0]; Vd& tx = r.tx[0];
    auto add = [&](size_t i, double v, double t) { gx[i] += v; tx[i] += t + 2 * EPS * (std::fabs(v) + std::fabs(gx[i])) + 1e-37; };
    switch (s.t) {
        case RELU: for (size_t i = 0; i < n; ++i) add(i, x[i] > 0 ? g[i] : 0, 0); break;
        case LEAKY: for (size_t i = 0; i < n; ++i) add(i, x[i] < 0 ? g[i] * double(s.alpha) : g[i], 0); break;
        case ELU_: for (size_t i = 0; i < n; ++i) { double d = x[i] < 0 ? double(s.alpha) * std::exp(x[i]) : 1; add(i, g[i] * d, std::fabs(g[i]) * std::fabs(d) * (8 + std::fabs(x[i])) * EPS + std::fabs(g[i] * s.alpha) * 8 * EPS); } break;
        case SIGMOID: for (size_t i = 0; i < n; ++i) { double o = f.y[i]; add(i, g[i] * o * (1 - o), std::fabs(g[i]) * (o * (1 - o) * 8 * EPS + f.tol[i] + o * 4 * EPS)); } break;
        case SOFTMAX: {
            int R = in[0], C = in[1];
            for (int i = 0; i < R; ++i) {
                double k = 0, m = 0, t = 0; for (int j = 0; j < C; ++j) { size_t q = size_t(i) * C + j; k += g[q] * f.y[q]; m += std::fabs(g[q] * f.y[q]); t += std::fabs(g[q]) * f.tol[q]; }
                for (int j = 0; j < C; ++j) { size_t q = size_t(i) * C + j;
                    add(q, f.y[q] * (g[q] - k), f.y[q] * ((C + 8) * EPS * m + t + 4 * EPS * std::fabs(g[q])) + f.tol[q] * (std::fabs(g[q]) + std::fabs(k))); }
            }
            break;
        }
        case ADD: for (size_t i = 0; i < n; ++i) { add(i, g[i], 0); r.gx[1][i] += g[i]; r.tx[1][i] += 2 * EPS * (std::fabs(g[i]) + std::fabs(r.gx[1][i])); } break;
        case DROPOUT: for (size_t i = 0; i < n; ++i) add(i, g[i], 0); break;
        case LINEAR: {
            int N = in[0]; size_t K = n / N; int U = s.units;
            for (int i = 0; i < N; ++i) for (size_t k = 0; k < K; ++k) { double a = 0, m = 0; for (int u = 0; u < U; ++u) { double t = g[size_t(i) * U + u] * st.w[size_t(u) * K + k]; a += t; m += std::fabs(t); } add(size_t(i) * K + k, a, (U + 8) * EPS * m); }
            Vd gw(size_t(U) * K), tw(size_t(U) * K), gb(U), tb(U);
            for (int u = 0; u < U; ++u) {
                for (size_t k = 0; k < K; ++k) { double a = 0, m = 0; for (int i = 0; i < N; ++i) { double t = g[size_t(i) * U + u] * x[size_t(i) * K + k]; a += t; m += std::fabs(t); } gw[size_t(u) * K + k] = a; tw[size_t(u) * K + k] = (N + 8) * EPS * m + 1e-37; }
                double a = 0, m = 0; for (int i = 0; i < N; ++i) { a += g[size_t(i) * U + u]; m += std::fabs(g[size_t(i) * U + u]); } gb[u] = a; tb[u] = (N + 8) * EPS * m + 1e-37;
            }
            r.gp["weight"] = gw; r.tp["weight"] = tw; r.gp["bias"] = gb; r.tp["bias"] = tb;
            break;
        }
        case CONV: {
            int N = in[0], C = in[1], H = in[2], W = in[3], O = s.units; Shape o = ref_shape(s, in); int HO = o[2], WO = o[3];
            Vd gi(n, 0), gm(n, 0), gw(st.w.size(), 0), mw(st.w.size(), 0), gb(O, 0), mb(O, 0);
            size_t q = 0;
            for (int b = 0; b < N; ++b) for (int oc = 0; oc < O; ++oc) for (int y = 0; y < HO; ++y) for (int xx = 0; xx < WO; ++xx, ++q) {
                double gg = g[q]; gb[oc] += gg; mb[oc] += std::fabs(gg);
                for (int c = 0; c < C; ++c) for (int ky = 0; ky < s.k[0]; ++ky) { int iy = y * s.st[0] - s.pad[0] + ky; if (iy < 0 || iy >= H) continue;
                    for (int kx = 0; kx < s.k[1]; ++kx) { int ix = xx * s.st[1] - s.pad[1] + kx; if (ix < 0 || ix >= W) continue;
                        size_t xi = ((size_t(b) * C + c) * H + iy) * W + ix, wi = ((size_t(oc) * C + c) * s.k[0] + ky) * s.k[1] + kx;
                        double t = gg * st.w[wi]; gi[xi] += t; gm[xi] += std::fabs(t);
                        t = gg * x[xi]; gw[wi] += t; mw[wi] += std::fabs(t); } }
            }
            double cnt = double(O) + double(s.k[0]) * s.k[1];
            for (size_t i = 0; i < n; ++i) { double before = std::fabs(gx[i]); add(i, gi[i], (cnt + 8) * EPS * (gm[i] + before)); }
            Vd tw(mw), tb(mb); double tot = double(N) * HO * WO;
            for (auto& v : tw) v = (tot + 8) * EPS * v + 1e-37; for (auto& v : tb) v = (tot + 8) * EPS * v + 1e-37;
            r.gp["weight"] = gw; r.tp["weight"] = tw; r.gp["bias"] = gb; r.tp["bias"] = tb;
            break;
        }
        case MAXPOOL: {                                   // unique maxima assumed (margin > 0)
            int H = in[2], W = in[3]; Shape o = ref_shape(s, in); int HO = o[2], WO = o[3]; size_t q = 0;
            Vd mag(gx.size()); for (size_t i = 0; i < mag.size(); ++i) mag[i] = std::fabs(gx[i]);
            for (int pl = 0; pl < in[0] * in[1]; ++pl) for (int y = 0; y < HO; ++y) for (int xx = 0; xx < WO; ++xx, ++q) {
                double m = -INFINITY; size_t at = size_t(-1);
                for (int ky = 0; ky < s.k[0]; ++ky) { int iy = y * s.st[0] - s.pad[0] + ky; if (iy < 0 || iy >= H) continue;
                    for (int kx = 0; kx < s.k[1]; ++kx) { int ix = xx * s.st[1] - s.pad[1] + kx; if (ix < 0 || ix >= W) continue;
                        size_t xi = (size_t(pl) * H + iy) * W + ix; if (at == size_t(-1) || x[xi] > m) { m = x[xi]; at = xi; } } }
                gx[at] += g[q]; mag[at] += std::fabs(g[q]); tx[at] += 2 * EPS * mag[at];
            }
            break;
        }
        case GAP: {
            size_t P = size_t(in[2]) * in[3];
            for (size_t i = 0; i < n; ++i) add(i, g[i / P] / P, 4 * EPS * std::fabs(g[i / P]) / P);
            break;
        }
        case BN1: case BN2: {
            int F = in[1], M = bn_n(s, in); Vd gg(F), tg(F), gb(F), tb(F);
            for (int ff = 0; ff < F; ++ff) {
                double sg = 0, ag = 0, sgx = 0, agx = 0, dg = 0;
                for (int i = 0; i < M; ++i) { size_t q = bn_idx(s, in, i, ff); sg += g[q]; ag += std::fabs(g[q]); sgx += g[q] * f.xh[q]; agx += std::fabs(g[q] * f.xh[q]); dg += std::fabs(g[q]) * f.dxh[q]; }
                gb[ff] = sg; tb[ff] = (M + 8) * EPS * ag + 1e-37; gg[ff] = sgx; tg[ff] = (M + 16) * EPS * agx + 2 * dg + 1e-37;
                double a = st.gamma[ff] * f.istd[ff], aa = std::fabs(a);
                for (int i = 0; i < M; ++i) { size_t q = bn_idx(s, in, i, ff);
                    if (!f.train) { add(q, a * g[q], aa * std::fabs(g[q]) * (2 * f.rstd[ff] + 16 * EPS)); continue; }    // the running statistics do not depend on the input
                    double v = a * (g[q] - sg / M - f.xh[q] * sgx / M);
                    double mag = std::fabs(g[q]) + ag / M + std::fabs(f.xh[q]) * agx / M;
                    double t = aa * (mag * (4.0 * (M + 16) * EPS + 3 * f.rstd[ff]) + 2 * f.dxh[q] * agx / M + 2 * std::fabs(f.xh[q]) * dg / M);
                    add(q, v, 2 * t); }
            }
            r.gp["gamma"] = gg; r.tp["gamma"] = tg; r.gp["beta"] = gb; r.tp["beta"] = tb;
            break;
        }
    }
    return r;
}

// ------------------------------------------------------------------ generators
struct GenOpt { int cap4 = 12, cap2 = 64, batch = 9, huge = 0; };      // huge: one case in that many has one extent beyond 16 bits
inline bool gen_huge(Rng& r, int t, Spec& s, Shape& in) {
    auto big = [&] { return r.chance(1, 3) ? r.range(32760, 33000) : r.range(65530, r.chance(1, 3) ? 140000 : 66000); };
    auto sq = [&] { return r.range(181, 300); };                            // planes beyond 16 bits with moderate sides
    switch (t) {
        case SOFTMAX: case BN1: in = r.chance(1, 2) ? Shape{big(), r.range(1, 3)} : Shape{r.range(2, 3), big()}; return true;
        case BN2: case GAP: in = Shape{r.range(2, 3), r.range(1, 2), r.range(1, 2), 1}; if (r.chance(1, 3)) in[2] = sq(), in[3] = sq(); else in[size_t(r.of({0, 1, 2, 3}))] = big(); return true;
        case LINEAR: in = {r.range(1, 3), r.range(1, 3)}; s.units = r.range(1, 3); { int a = r.range(0, 2); if (a < 2) in[size_t(a)] = big(); else s.units = big(); } return true;
        case CONV: case MAXPOOL: {
            in = {r.range(1, 2), r.range(1, 2), r.range(2, 4), r.range(2, 4)}; s.units = r.range(1, 2);
            for (size_t a = 0; a < 2; ++a) { s.k[a] = r.range(1, 2); s.pad[a] = r.range(0, s.k[a] - 1); s.st[a] = r.range(1, 2); }
            int a = r.range(0, 5); if (a == 4) { in[2] = sq(); in[3] = sq(); } else if (a == 5 && t == CONV) { s.units = r.range(20000, 40000); in[2] = in[3] = 2; in[0] = 1; } else { in[size_t(a % 4)] = big() / (a == 1 ? 2 : 1); if (a < 2) in[2] = in[3] = 2; }
            return true;
        }
        default: if (r.chance(1, 2)) in = {big()}; else { in = {r.range(1, 2), r.range(1, 2), r.range(1, 2)}; in[size_t(r.range(0, 2))] = big(); } return true;
    }
}
// A valid random layer of type t with an input shape for it.
inline void gen_layer(Rng& r, int t, Spec& s, Shape& in, const GenOpt& o = {}) {
    s = Spec(); s.t = t;
    s.alpha = float(r.offl({0.01, 0.1, 0.25, 0.5, 0.9, 1.0, 1.5, 2.0}));
    s.eps = float(r.offl({1e-5, 1e-3, 1e-2, 0.1}));
    s.p = float(r.offl({0.0, 0.1, 0.25, 0.5, 0.75, 0.9}));
    int N = r.chance(1, 6) ? dim(r, o.batch * 4) : r.range(1, o.batch);
    switch (t) {
        case SOFTMAX: in = {N, dim(r, o.cap2)}; break;
        case BN1: in = {r.chance(1, 12) ? 1 : std::max(N, 2), dim(r, o.cap2)}; s.alpha = float(r.offl({0, 0.1, 0.3, 0.5, 0.9, 1.0})); break;
        case BN2: in = {N, dim(r, 17), dim(r, o.cap4), dim(r, o.cap4)}; if (N * in[2] * in[3] < 2 && !r.chance(1, 2)) in[0] = 2; s.alpha = float(r.offl({0, 0.1, 0.3, 0.5, 0.9, 1.0})); break;
        case LINEAR: {
            int rank = r.of({2, 2, 2, 3, 4, 5}); in = {N}; s.units = dim(r, o.cap2);
            if (rank == 2) in.push_back(dim(r, o.cap2 * 2)); else for (int i = 1; i < rank; ++i) in.push_back(r.range(1, 6));
            break;
        }
        case CONV: case MAXPOOL: {
            in = {r.range(1, o.batch), t == CONV ? dim(r, 9) : dim(r, 7), dim(r, o.cap4), dim(r, o.cap4)};
            s.units = dim(r, 12);
            for (int a = 0; a < 2; ++a) {
                s.pad[a] = r.chance(1, 30) ? r.range(4, 12) : r.of({0, 0, 1, 1, 2, 3});
                int mx = in[2 + a] + 2 * s.pad[a];
                s.k[a] = r.chance(1, 8) ? mx : r.range(1, std::min(mx, 5));
                if (t == MAXPOOL && s.pad[a] >= s.k[a]) s.pad[a] = s.k[a] - 1;
                mx = in[2 + a] + 2 * s.pad[a]; if (s.k[a] > mx) s.k[a] = mx;
                if (t == MAXPOOL && s.pad[a] >= s.k[a]) s.pad[a] = 0;
                s.st[a] = r.of({1, 1, 2, 2, 3, 4, 5});
            }
            if (r.chance(1, 120)) {                        // windows of more than 256 positions
                in = {r.range(1, 2), r.range(1, 3), r.range(16, 44), r.range(16, 44)}; s.units = r.range(1, 3);
                for (int a = 0; a < 2; ++a) { s.pad[a] = r.range(0, 3); s.k[a] = r.range(14, std::min(34, in[2 + a] + 2 * s.pad[a])); s.st[a] = r.range(1, 5); }
            }
            break;
        }
        case GAP: in = {N, dim(r, 33), dim(r, o.cap4 * 2), dim(r, o.cap4 * 2)}; break;
        default: {
            int rank = r.range(1, 5);
            if (rank == 1) in = {dim(r, o.cap2 * 8)};
            else if (rank == 2) in = {N, dim(r, o.cap2)};
            else { in = {N}; for (int i = 1; i < rank; ++i) in.push_back(r.range(1, rank == 3 ? 12 : 6)); }
        }
    }
    if (o.huge && r.chance(1, o.huge)) { gen_huge(r, t, s, in); return; }
    // now and then a batch far beyond the usual ones
    if (t != DROPOUT && in.size() >= 2 && o.batch > 1 && r.chance(1, 150)) {
        size_t per = prod(in) / size_t(in[0]); double work = double(per) * (t == CONV ? double(s.units) * s.k[0] * s.k[1] / (s.st[0] * s.st[1]) : t == LINEAR ? s.units : t == MAXPOOL ? double(s.k[0]) * s.k[1] / (s.st[0] * s.st[1]) : 1);
        int cap = int(std::min(1100.0, std::min(20000.0 / double(per), 1e6 / std::max(1.0, work))));
        if (cap > in[0]) in[0] = dim(r, cap);
        if (is_bn(s)) in[0] = std::max(in[0], 2);
    }
}
