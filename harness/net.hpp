// Random acyclic networks built through the public API, with the bookkeeping needed to recompute them.
#pragma once
#include "lcheck.hpp"
#include <deepworks/model.hpp>
#include "expression/placeholder_impl.hpp"
#include "expression/call_impl.hpp"

struct NetOp { Spec s; std::vector<int> in; int out; LayerInfo info; };
struct Net {
    std::vector<Shape> shape; Placeholders ph; std::vector<NetOp> ops; std::vector<int> ins, outs;   // ids of data
    std::vector<int> producer;                                                                  // op index or -1
    std::string str() const {
        std::string r; for (int i : ins) r += " in" + std::to_string(i) + ::str(shape[size_t(i)]);
        for (auto& o : ops) { r += " " + std::to_string(o.out) + "=" + o.s.str() + (o.s.name.empty() ? "" : "'" + o.s.name + "'") + "("; for (int i : o.in) r += std::to_string(i) + ","; r += ")"; }
        r += " out"; for (int i : outs) r += ":" + std::to_string(i);
        return r;
    }
    int data(const Shape& s, const Placeholder& p, int prod_) { shape.push_back(s); ph.push_back(p); producer.push_back(prod_); return int(shape.size()) - 1; }
    int add(const Spec& s, const std::vector<int>& in, bool factory = false) {
        Placeholders a; for (int i : in) a.push_back(ph[size_t(i)]);
        NetOp o; o.s = s; o.in = in; Placeholder out;
        if (factory) { out = dw::make_layer(lt_name(s.t), s.name, attrs_of(s), a); o.info = out.impl().call->impl().info; } else out = build(s, a, &o.info);
        o.out = data(ref_shape(s, shape[size_t(in[0])]), out, int(ops.size())); ops.push_back(o);
        return o.out;
    }
    dw::Model model() const { Placeholders a, b; for (int i : ins) a.push_back(ph[size_t(i)]); for (int i : outs) b.push_back(ph[size_t(i)]); return dw::Model(a, b); }
    int consumers(int d) const { int n = 0; for (auto& o : ops) for (int i : o.in) n += i == d; return n; }
};
struct NetOpt { int max_ops = 12, max_in = 3; bool named = true, dropout = true, extra_outs = true; int batch = 5, hw = 6; };
inline Spec net_spec(Rng& r, int t, const Shape& in, const NetOpt& o) {
    Spec s; s.t = t; s.alpha = float(r.offl({0.01, 0.1, 0.5, 0.9})); s.eps = float(r.offl({1e-5, 1e-3, 0.1})); s.p = o.dropout ? float(r.offl({0, 0.3, 0.5})) : 0.f;
    if (t == LINEAR) s.units = r.range(1, 9);
    if (t == CONV) s.units = r.range(1, 4);
    if (t == CONV || t == MAXPOOL) for (size_t a = 0; a < 2; ++a) {
        s.k[a] = r.range(1, std::min(3, in[2 + a])); s.st[a] = r.range(1, 2); s.pad[a] = r.range(0, std::min(1, s.k[a] - 1));
    }
    return s;
}
inline Net gen_net(Rng& r, const NetOpt& o) {
    Net n; int b = r.range(2, o.batch); std::vector<int> used; int nin = r.chance(1, 2) ? 1 : r.range(1, o.max_in);
    bool four = r.chance(1, 2); Shape s4{b, r.range(1, 3), r.range(2, o.hw), r.range(2, o.hw)}, s2{b, r.range(1, 7)};
    for (int i = 0; i < nin; ++i) { Shape s = r.chance(2, 3) ? (four ? s4 : s2) : (r.chance(1, 2) ? Shape{b, r.range(1, 7)} : Shape{b, 2, 4, 5}); n.ins.push_back(n.data(s, Placeholder(s), -1)); }
    int nops = r.range(1, o.max_ops); int uniq = 0;
    auto name = [&](Spec& s) { if (o.named && r.chance(1, 2)) s.name = "l" + std::to_string(uniq++) + (r.chance(1, 2) ? "_" + std::string(lt_name(s.t)) : ""); };
    for (int k = 0; k < nops; ++k) {
        int d = r.chance(1, 2) ? int(n.shape.size()) - 1 : r.range(0, int(n.shape.size()) - 1); const Shape in = n.shape[size_t(d)];
        std::vector<int> kinds{RELU, LEAKY, ELU_, SIGMOID, ADD, ADD, ADD, LINEAR}; if (o.dropout) kinds.push_back(DROPOUT);
        if (in.size() == 2) { kinds.push_back(SOFTMAX); kinds.push_back(BN1); kinds.push_back(LINEAR); }
        if (in.size() == 4) { kinds.insert(kinds.end(), {CONV, CONV, MAXPOOL, BN2, GAP}); }
        Spec s = net_spec(r, kinds[r.next() % kinds.size()], in, o); name(s);
        std::vector<int> args{d};
        if (s.t == ADD) { std::vector<int> c; for (size_t i = 0; i < n.shape.size(); ++i) if (n.shape[i] == in) c.push_back(int(i)); args.push_back(r.pick(c)); if (r.chance(1, 2)) std::swap(args[0], args[1]); }
        n.add(s, args, r.chance(1, 3));
    }
    for (int i : n.ins) if (!n.consumers(i)) { Spec s; s.t = RELU; name(s); n.add(s, {i}); }
    for (size_t i = 0; i < n.shape.size(); ++i) if (n.producer[i] >= 0 && (!n.consumers(int(i)) || (o.extra_outs && r.chance(1, 7)))) n.outs.push_back(int(i));
    for (size_t i = n.outs.size(); i > 1; --i) std::swap(n.outs[i - 1], n.outs[r.next() % i]);
    for (size_t i = n.ins.size(); i > 1; --i) std::swap(n.ins[i - 1], n.ins[r.next() % i]);
    return n;
}
// Hundreds of layers on small data, mostly a chain, with some skip connections.
inline Net long_net(Rng& r, int nops, bool bn = true) {
    Net n; int w = r.range(1, 4); n.ins.push_back(n.data({2, w}, Placeholder(Shape{2, w}), -1)); std::vector<int> all = n.ins; NetOpt o; o.dropout = false;
    for (int k = 0; k < nops; ++k) {
        int last = all.back(); static const int T[] = {BN1, BN1, BN1, BN1, LINEAR, RELU, LEAKY, SIGMOID, ELU_, ADD};
        Spec s = net_spec(r, T[bn ? r.next() % 10 : 4 + r.next() % 6], n.shape[0], o); if (s.t == LINEAR) s.units = w; if (r.chance(1, 3)) s.name = "n" + std::to_string(k);
        std::vector<int> args{last}; if (s.t == ADD) { args.push_back(r.chance(1, 2) ? r.pick(all) : last); }
        all.push_back(n.add(s, args, r.chance(1, 3)));
    }
    n.outs.push_back(all.back()); if (r.chance(1, 2)) n.outs.push_back(all[all.size() / 2]);
    return n;
}
// Values that keep activations moderate; parameters small.
inline void net_randomize(Rng& r, Net& n) {
    for (auto& o : n.ops) {
        std::vector<std::string> names; for (auto& kv : o.info.impl().params) names.push_back(kv.first); std::sort(names.begin(), names.end());
        for (auto& k : names) { if (k == "mask") continue; Tensor t = o.info.impl().params.at(k).data(); for (size_t i = 0; i < t.total(); ++i) t.data()[i] = float(k == "gamma" ? r.real(0.5, 1.5) : r.real(-0.5, 0.5)); }
        for (auto& kv : o.info.impl().buffers) { Tensor t = kv.second; for (size_t i = 0; i < t.total(); ++i) t.data()[i] = float(kv.first == "running_var" ? r.real(0.5, 2) : r.real(-0.5, 0.5)); }
    }
}
// A separate layer with copies of parameters and buffers.
inline Inst clone_layer(const NetOp& o, const Shape& in) {
    Inst I(o.s, in);
    for (auto& kv : I.info.impl().params) { Tensor d = kv.second.data(), s = o.info.impl().params.at(kv.first).data(); s.copyTo(d); }
    for (auto& kv : I.info.impl().buffers) { Tensor d = kv.second, s = o.info.impl().buffers.at(kv.first); s.copyTo(d); }
    return I;
}
// The network evaluated layer by layer on separate layers and tensors, each step judged by the reference.
struct ByHand {
    const Net& n; std::vector<Inst> l; std::vector<std::vector<float>> val, grad; std::vector<std::unique_ptr<Run>> run; double margin = 1e300;
    explicit ByHand(const Net& n_) : n(n_) { for (auto& o : n.ops) l.push_back(clone_layer(o, n.shape[size_t(o.in[0])])); }
    std::vector<char> modes;                                                    // per layer, if they differ
    void train(bool m) { modes.clear(); for (auto& x : l) x.train(m); }
    void train(const std::vector<char>& m) { modes = m; for (size_t k = 0; k < l.size(); ++k) l[k].train(m[k] != 0); }
    void refresh(size_t k) { for (auto& kv : l[k].info.impl().params) { Tensor d = kv.second.data(), s = n.ops[k].info.impl().params.at(kv.first).data(); s.copyTo(d); } for (auto& kv : l[k].info.impl().buffers) { Tensor d = kv.second, s = n.ops[k].info.impl().buffers.at(kv.first); s.copyTo(d); } }
    bool forward(Ctx& c, Rng& r, const std::vector<std::vector<float>>& x, bool tr) {
        val.assign(n.shape.size(), {}); run.clear(); margin = 1e300;
        for (size_t i = 0; i < n.ins.size(); ++i) val[size_t(n.ins[i])] = x[i];
        for (size_t k = 0; k < n.ops.size(); ++k) {
            auto& o = n.ops[k]; Inst& I = l[k]; const Shape& in = n.shape[size_t(o.in[0])]; auto R = std::make_unique<Run>();
            R->x.resize(o.in.size()); for (size_t i = 0; i < o.in.size(); ++i) { R->x[i].make(r, in, 0); std::copy(val[size_t(o.in[i])].begin(), val[size_t(o.in[i])].end(), R->x[i].p()); }
            R->refresh(); R->y.make(r, n.shape[size_t(o.out)], 0); R->y.poison();
            if (!R->forward(c, I, in, modes.empty() ? tr : modes[k] != 0, std::string("layer-") + lt_name(o.s.t))) return false;
            margin = std::min(margin, R->f.margin); val[size_t(o.out)] = flt(R->y.t); run.push_back(std::move(R));
        }
        return true;
    }
    // Also measures how the parameter gradients react to rounding-sized perturbations (noise).
    std::map<std::pair<size_t, std::string>, double> noise; std::map<std::pair<size_t, std::string>, std::vector<float>> pgrad;
    bool backward(Ctx& c, Rng& r, const std::vector<std::vector<float>>& gout) {
        pgrad.clear(); noise.clear();
        for (double eps : {2e-6, 2e-6, 0.0}) {
            if (!pass(c, r, gout, eps)) return false;
            std::map<std::pair<size_t, std::string>, std::vector<float>> now;
            for (size_t k = 0; k < l.size(); ++k) for (auto& kv : l[k].info.params()) now[{k, kv.first}] = flt(kv.second.grad());
            if (!pgrad.empty()) for (auto& kv : now) { double d = 0; auto& old = pgrad[kv.first]; for (size_t i = 0; i < old.size(); ++i) d = std::max(d, std::fabs(double(old[i]) - kv.second[i])); noise[kv.first] = std::max(noise[kv.first], d); }
            pgrad = now;
        }
        return true;
    }
    bool pass(Ctx& c, Rng& r, const std::vector<std::vector<float>>& gout, double eps) {
        grad.assign(n.shape.size(), {}); for (size_t i = 0; i < n.shape.size(); ++i) grad[i].assign(prod(n.shape[i]), 0.f);
        for (size_t i = 0; i < n.outs.size(); ++i) for (size_t q = 0; q < gout[i].size(); ++q) grad[size_t(n.outs[i])][q] += gout[i][q];
        for (size_t k = n.ops.size(); k-- > 0;) {
            auto& o = n.ops[k]; Run& R = *run[k]; const Shape& in = n.shape[size_t(o.in[0])];
            R.gy.make(r, n.shape[size_t(o.out)], 0); std::copy(grad[size_t(o.out)].begin(), grad[size_t(o.out)].end(), R.gy.p()); R.G = R.gy.dbl();
            if (eps > 0) for (size_t q = 0; q < R.gy.n; ++q) R.gy.p()[q] = float(R.gy.p()[q] * (1 + r.real(-eps, eps)));
            R.gx.resize(o.in.size()); R.GX0.clear(); for (auto& g : R.gx) { g.make(r, in, 0); std::fill_n(g.p(), g.n, 0.f); R.GX0.push_back(g.dbl()); }
            if (eps == 0 && R.f.margin > 1e-5) { if (!R.backward(c, l[k], in, std::string("layer-") + lt_name(o.s.t))) return false; }
            else l[k].backward(R.xt(), R.y.t, R.gy.t, R.gxt());
            for (size_t i = 0; i < o.in.size(); ++i) for (size_t q = 0; q < R.gx[i].n; ++q) grad[size_t(o.in[i])][q] += R.gx[i].p()[q];
        }
        return true;
    }
};
// Equal bits, or equal to rounding relative to the tensor's magnitude.
inline bool near(Ctx& c, const std::string& key, const std::string& what, const float* got, const float* ref, size_t n, double rel, bool* exact = nullptr, double abs = 0) {
    double m = 0; for (size_t i = 0; i < n; ++i) m = std::max(m, std::fabs(double(ref[i])));
    c.count("values_compared", long(n));
    for (size_t i = 0; i < n; ++i) {
        if (bits(got[i]) == bits(ref[i])) continue;
        if (exact) *exact = false;
        if (std::fabs(double(got[i]) - ref[i]) <= rel * (m + 1e-3) + abs) continue;
        c.failf(key, "%s[%zu/%zu] = %.9g, expected %.9g", what.c_str(), i, n, got[i], ref[i]); return false;
    }
    return true;
}
inline std::string net_name(const NetOp& o) { return o.info.name(); }
