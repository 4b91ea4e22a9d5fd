#include "lcheck.hpp"
#include "expression/placeholder_impl.hpp"
#include "expression/call_impl.hpp"
const char* PROP = "C28";
uint64_t ncases(const Ctx& c) { return c.thorough ? 832000 : 41600; }
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; int t = int(idx % NLT); Spec s; Shape in; GenOpt o; o.cap4 = 9; o.cap2 = 40; o.batch = 6; gen_layer(r, t, s, in, o);
    s.name = r.chance(1, 5) ? "" : "layer_" + std::to_string(r.range(0, 999)); std::string key = lt_name(t);
    if (r.chance(1, 2)) { s.alpha = float(r.real(0.01, 1)); s.eps = float(r.real(1e-6, 0.2)); if (t == DROPOUT) s.p = float(r.chance(1, 3) ? r.real(0.9, 0.995) : r.real(0, 0.9)); if (r.chance(1, 3)) s.eps = float(r.offl({1e-12, 1e-8, 0.5, 1, 3})); if (r.chance(1, 3) && (t == LEAKY || t == ELU_)) s.alpha = float(r.offl({0, -0.5, 2, 10, 1e-7, 1.3})); }
    // attributes inserted in a random order
    dw::Attributes src = attrs_of(s), at; std::vector<std::string> names; for (auto& kv : src) names.push_back(kv.first);
    std::sort(names.begin(), names.end()); for (size_t i = names.size(); i > 1; --i) std::swap(names[i - 1], names[r.next() % i]);
    std::string ord; for (auto& n : names) { at.emplace(n, src.at(n)); ord += n + ","; }
    c.desc("%s|%s name='%s' in=%s order=%s", lt_name(t), s.str().c_str(), s.name.c_str(), str(in).c_str(), ord.c_str());
    Placeholders ph; for (int i = 0; i < n_in(s); ++i) ph.push_back(Placeholder(in));
    Placeholder made = dw::make_layer(lt_name(t), s.name, at, ph);
    LayerInfo di; Placeholder direct = build(s, ph, &di);
    c.count("layers_made");
    if (made.shape() != direct.shape()) { c.fail(key + ":shape", "made " + str(made.shape()) + ", direct " + str(direct.shape())); return; }
    if (made.shape() != ref_shape(s, in)) { c.fail(key + ":shape", "made " + str(made.shape()) + ", expected " + str(ref_shape(s, in))); return; }
    auto call = made.impl().call; if (!call) { c.fail(key + ":call", "no producing operation"); return; }
    auto& ci = call->impl(); LayerInfo mi = ci.info;
    if (ci.args.size() != ph.size()) { c.fail(key + ":inputs", "wrong number of inputs"); return; }
    for (size_t i = 0; i < ph.size(); ++i) if (&ci.args[i].impl() != &ph[i].impl()) { c.fail(key + ":inputs", "inputs in another order"); return; }
    if (mi.type() != lt_name(t) || mi.name() != s.name) { c.fail(key + ":name", "type '" + mi.type() + "' name '" + mi.name() + "'"); return; }
    if (mi.impl().attrs.size() != src.size() || di.impl().attrs.size() != src.size()) { c.fail(key + ":attributes", "number of attributes differs"); return; }
    for (auto& kv : src) {
        auto it = mi.impl().attrs.find(kv.first), jt = di.impl().attrs.find(kv.first); if (it == mi.impl().attrs.end() || jt == di.impl().attrs.end()) { c.fail(key + ":attributes", "attribute " + kv.first + " missing"); return; }
        for (auto* x : {&it->second, &jt->second}) {
            auto& a = kv.second; bool same = a.type() == x->type() && a.shape() == x->shape();
            if (same) same = a.shape() == dw::AttrShape::ARRAY2 ? a.get<A2>() == x->get<A2>() : a.type() == dw::AttrType::INT ? a.get<int>() == x->get<int>() : bits(a.get<float>()) == bits(x->get<float>());
            if (!same) { c.fail(key + ":attributes", "attribute " + kv.first + " differs"); return; }
        }
        c.count("attributes_compared");
    }
    if (mi.params().size() != di.params().size() || mi.buffers().size() != di.buffers().size()) { c.fail(key + ":parameters", "different parameters"); return; }
    Inst M(s, mi, in, made.shape()), D(s, di, in, direct.shape());
    for (auto& kv : di.params()) {
        auto it = mi.params().find(kv.first); if (it == mi.params().end() || it->second.data().shape() != kv.second.data().shape()) { c.fail(key + ":parameters", "parameter " + kv.first + " missing or of another shape"); return; }
        if (it->second.data().data() == kv.second.data().data()) { c.fail(key + ":shared", "two layers share a parameter"); return; }
    }
    for (auto& kv : di.buffers()) { auto it = mi.buffers().find(kv.first); if (it == mi.buffers().end() || it->second.shape() != kv.second.shape()) { c.fail(key + ":buffers", "buffer " + kv.first + " missing or of another shape"); return; } }
    randomize(r, D, SGN);
    for (auto& kv : di.params()) if (kv.first != "mask") { Tensor d = kv.second.data(), m = mi.params().at(kv.first).data(); d.copyTo(m); }
    if (t == DROPOUT) { M.train(false); D.train(false); }
    int steps = r.range(1, 3);
    for (int k = 0; k < steps; ++k) {
        Run R; R.inputs(r, D, in, SGN); if (t == MAXPOOL) { distinct_values(r, R.x[0].p(), R.x[0].n); R.refresh(); }
        bool train = t != DROPOUT && (k == 0 || r.chance(1, 2)); M.train(train); D.train(train);
        if (t != DROPOUT) { if (!R.forward(c, M, in, train, key)) return; }              // made layer against the reference
        else M.forward(R.xt(), R.y.t);
        // both layers run on the same tensors: identical arithmetic must give identical bits
        std::vector<float> y1 = flt(R.y.t); R.y.poison(); D.forward(R.xt(), R.y.t); c.count("forward_compared");
        if (!check_bits(c, key + ":forward", "output", y1.data(), R.y.p(), R.y.n)) return;
        R.grads(r, D, in, SGN, false); std::vector<std::vector<float>> g0, g1; for (auto& g : R.gx) g0.push_back(flt(g.t));
        M.backward(R.xt(), R.y.t, R.gy.t, R.gxt()); for (size_t i = 0; i < g0.size(); ++i) { g1.push_back(flt(R.gx[i].t)); std::copy(g0[i].begin(), g0[i].end(), R.gx[i].p()); }
        D.backward(R.xt(), R.y.t, R.gy.t, R.gxt()); c.count("backward_compared");
        for (size_t i = 0; i < g1.size(); ++i) if (!check_bits(c, key + ":backward", "input gradient", g1[i].data(), R.gx[i].p(), R.gx[i].n)) return;
        for (auto& kv : di.params()) if (kv.first != "mask") if (!check_bits(c, key + ":param-grad", kv.first.c_str(), mi.params().at(kv.first).grad().data(), kv.second.grad().data(), kv.second.grad().total())) return;
        for (auto& kv : di.buffers()) if (!check_bits(c, key + ":buffer", kv.first.c_str(), mi.buffers().at(kv.first).data(), kv.second.data(), kv.second.total())) return;
    }
}
