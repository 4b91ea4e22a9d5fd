#include "lcheck.hpp"
const char* PROP = "C26";
uint64_t ncases(const Ctx& c) { return c.thorough ? 1248000 : 62400; }
static bool xavier_like(Ctx& c, const Tensor& w) {
    size_t n = w.total(); double m = w.shape()[0], k = double(n) / m, hi = std::sqrt(6.0 / (m + k)), hk = std::sqrt(6.0) / (m + k), s2 = 0, mx = 0;
    for (size_t i = 0; i < n; ++i) { double v = w.data()[i]; s2 += v * v; mx = std::max(mx, std::fabs(v)); if (!(std::fabs(v) <= hi * (1 + 1e-5))) { c.failf("init:xavier-range", "weight %zu is %g, beyond the Xavier bound %g", i, v, hi); return false; } }
    if (n < 64) return true;
    // variance of a uniform draw: h^2/3 +- h^2 * sqrt(4/45/n); the bound in use may be hi or (known finding of C03) hk
    auto fits = [&](double h) { return mx <= h * (1 + 1e-5) && std::fabs(s2 / double(n) - h * h / 3) <= 7 * h * h * std::sqrt(4.0 / 45 / double(n)); };
    c.count("xavier_weights");
    if (!fits(hi) && !fits(hk)) { c.failf("init:xavier-spread", "%zu weights are not Xavier-uniform: rms %g max %g, bound %g", n, std::sqrt(s2 / double(n)), mx, hi); return false; }
    return true;
}
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; int t = int(idx % NLT); Spec s; Shape in; GenOpt o; o.cap4 = r.chance(1, 8) ? 40 : 10; o.cap2 = r.chance(1, 5) ? 200 : 30; o.huge = 400; gen_layer(r, t, s, in, o);
    if (r.chance(1, 2)) s.name = "n" + std::to_string(r.range(0, 99));
    bool defaults = is_bn(s) && r.chance(1, 3); if (defaults) { s.eps = 1e-5f; s.alpha = 0.1f; }
    bool unknown = t != DROPOUT && r.chance(1, 4); Shape din = in; if (unknown) din[0] = -1;
    std::string key = lt_name(t);
    c.desc("%s|%s in=%s name=%s", lt_name(t), s.str().c_str(), str(din).c_str(), s.name.c_str());
    LayerInfo info; Placeholders ph; for (int i = 0; i < n_in(s); ++i) ph.push_back(Placeholder(din));
    Placeholder out;
    if (defaults) { if (t == BN1) { dw::BatchNorm1D op; op.m_info.impl().name = s.name; out = op(ph[0]); info = op.m_info; } else { dw::BatchNorm2D op; op.m_info.impl().name = s.name; out = op(ph[0]); info = op.m_info; } c.count("default_arguments"); }
    else out = build(s, ph, &info);
    Shape want = ref_shape(s, din);
    c.count("shapes"); if (unknown) c.count("unknown_batch");
    if (out.shape() != want) { c.fail(key + ":shape", "declared " + str(out.shape()) + ", expected " + str(want)); return; }
    for (auto& p : ph) if (p.shape() != din) { c.fail(key + ":input-shape", "input placeholder changed"); return; }
    if (info.type() != lt_name(t) || info.name() != s.name) { c.fail(key + ":info", "type " + info.type() + " name " + info.name()); return; }
    // attributes
    auto at = attrs_of(s); auto& ia = info.impl().attrs;
    if (ia.size() != at.size()) { c.fail(key + ":attributes", "has " + std::to_string(ia.size()) + " attributes"); return; }
    for (auto& kv : at) {
        auto it = ia.find(kv.first); if (it == ia.end()) { c.fail(key + ":attributes", "no attribute " + kv.first); return; }
        auto& a = kv.second; auto& b = it->second; bool same = a.type() == b.type() && a.shape() == b.shape();
        if (same) same = a.shape() == dw::AttrShape::ARRAY2 ? a.get<A2>() == b.get<A2>() : a.type() == dw::AttrType::INT ? a.get<int>() == b.get<int>() : bits(a.get<float>()) == bits(b.get<float>());
        if (!same) { c.fail(key + ":attributes", "attribute " + kv.first + " differs"); return; }
    }
    // parameters and buffers
    std::map<std::string, Shape> wp, wb;
    if (t == LINEAR) { int f = 1; for (size_t i = 1; i < in.size(); ++i) f *= in[i]; wp = {{"weight", {s.units, f}}, {"bias", {s.units}}}; }
    if (t == CONV) wp = {{"weight", {s.units, in[1], s.k[0], s.k[1]}}, {"bias", {s.units}}};
    if (is_bn(s)) { wp = {{"gamma", {in[1]}}, {"beta", {in[1]}}}; wb = {{"running_mean", {in[1]}}, {"running_var", {in[1]}}}; }
    if (t == DROPOUT) wp = {{"mask", in}};
    if (info.params().size() != wp.size() || info.buffers().size() != wb.size()) { c.failf(key + ":parameters", "%zu parameters and %zu buffers, expected %zu and %zu", info.params().size(), info.buffers().size(), wp.size(), wb.size()); return; }
    for (auto& kv : wp) {
        auto it = info.params().find(kv.first); if (it == info.params().end()) { c.fail(key + ":parameters", "no parameter " + kv.first); return; }
        const Tensor& d = it->second.data(); const Tensor& g = it->second.grad();
        if (d.shape() != kv.second || g.shape() != kv.second) { c.fail(key + ":parameter-shape", kv.first + " has shape " + str(d.shape()) + ", gradient " + str(g.shape()) + ", expected " + str(kv.second)); return; }
        if (!it->second.is_trainable()) { c.fail(key + ":trainable", kv.first + " does not start trainable"); return; }
        for (size_t i = 0; i < g.total(); ++i) if (g.data()[i] != 0) { c.fail(key + ":grad-init", "gradient of " + kv.first + " does not start at zero"); return; }
        if (kv.first == "weight") { if (!xavier_like(c, d)) return; }
        else { float v = kv.first == "gamma" ? 1.f : 0.f; for (size_t i = 0; i < d.total(); ++i) if (d.data()[i] != v) { c.failf(key + ":init", "%s[%zu] starts at %g", kv.first.c_str(), i, d.data()[i]); return; } }
        c.count("parameters");
    }
    for (auto& kv : wb) {
        auto it = info.buffers().find(kv.first); if (it == info.buffers().end() || it->second.shape() != kv.second) { c.fail(key + ":buffers", "buffer " + kv.first + " missing or of wrong shape"); return; }
        for (size_t i = 0; i < it->second.total(); ++i) if (it->second.data()[i] != 0) { c.fail(key + ":buffer-init", kv.first + " does not start at zero"); return; }
    }
    // every parameter, gradient and buffer has storage of its own, and so does a second layer
    {
        LayerInfo other; Placeholders p2; for (int i = 0; i < n_in(s); ++i) p2.push_back(Placeholder(din)); build(s, p2, &other);
        std::vector<std::pair<const float*, size_t>> mem;
        for (const LayerInfo* l : {&info, &other}) { for (auto& kv : l->params()) { mem.push_back({kv.second.data().data(), kv.second.data().total()}); mem.push_back({kv.second.grad().data(), kv.second.grad().total()}); } for (auto& kv : l->buffers()) mem.push_back({kv.second.data(), kv.second.total()}); }
        std::sort(mem.begin(), mem.end()); for (size_t i = 1; i < mem.size(); ++i) if (mem[i - 1].first + mem[i - 1].second > mem[i].first) { c.fail(key + ":shared-storage", "two parameters, gradients or buffers share storage"); return; }
        if (!mem.empty()) c.count("storage_checks");
    }
    // the forward pass fills exactly the declared shape
    if (prod(in) > 200000 || prod(ref_shape(s, in)) > 200000) return;
    Inst I(s, info, in, ref_shape(s, in)); Run R; R.inputs(r, I, in, SGN);
    I.forward(R.xt(), R.y.t); c.count("forward_fills");
    if (!R.y.canaries()) { c.fail(key + ":outside", "forward wrote outside the declared output"); return; }
    for (size_t i = 0; i < R.y.n; ++i) if (!std::isfinite(R.y.p()[i])) { c.failf(key + ":unfilled", "output element %zu of %zu was not filled (%g)", i, R.y.n, R.y.p()[i]); return; }
}
