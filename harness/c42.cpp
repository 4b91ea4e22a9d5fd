// Misuse of training components and calls out of order: reported by an exception, nothing outside the tensors is
// touched (sanitizers, canaries), and the objects work afterwards as if the call had not been made.
#include "net.hpp"
#include "loader.hpp"
#include <deepworks/loss.hpp>
#include <deepworks/metrics.hpp>
#include <deepworks/optimizer.hpp>
#include <deepworks/serialization.hpp>
#include <limits>
const char* PROP = "C42";
uint64_t ncases(const Ctx& c) { return c.thorough ? 640000 : 32000; }

static float bad_label(Rng& r, int b, int n) {
    switch (r.range(0, 11)) {
        case 0: case 1: return float(n);
        case 2: return float(n + r.range(1, 3));
        case 3: return -1.f;
        case 4: return float(-r.range(1, n * b + 2));
        case 5: return float(n) * float(b) + float(r.range(0, 3));
        case 6: return NAN;
        case 7: return r.chance(1, 2) ? INFINITY : -INFINITY;
        case 8: return r.chance(1, 2) ? 3e38f : -3e38f;
        case 9: return r.chance(1, 2) ? 2147483648.f : -2147483648.f;
        case 10: return float(r.range(1000000, 2000000000)) * (r.chance(1, 2) ? 1.f : -1.f);
        default: return float(n) + float(r.range(1, 1000000));
    }
}
static void loss_case(Ctx& c) {
    Rng& r = c.rng; int b = r.range(1, r.chance(1, 6) ? 40 : 6), n = r.range(1, r.chance(1, 6) ? 40 : 7); dw::loss::CrossEntropyLoss L;
    GT p, t, g; p.make(r, {b, n}); t.make(r, {b, 1}); g.make(r, {b, n}); std::vector<int> lab;
    for (size_t i = 0; i < p.n; ++i) p.p()[i] = float(r.real(0.05, 1));
    for (int i = 0; i < b; ++i) { lab.push_back(r.range(0, n - 1)); t.p()[i] = float(lab.back()); }
    auto good = [&](const char* when) {
        double w = 0; for (int i = 0; i < b; ++i) w -= std::log(double(p.p()[size_t(i) * size_t(n) + size_t(lab[size_t(i)])])) / b;
        float v = L.forward(p.t, t.t); if (!(std::fabs(v - w) <= 1e-5 * (1 + w))) { c.failf(std::string("label:") + when + "-loss", "loss %.9g, expected %.9g", v, w); return false; }
        g.poison(); L.backward(p.t, t.t, g.t);
        for (int i = 0; i < b; ++i) for (int j = 0; j < n; ++j) { double e = j == lab[size_t(i)] ? -1.0 / b / p.p()[size_t(i) * size_t(n) + size_t(j)] : 0, a = g.p()[size_t(i) * size_t(n) + size_t(j)]; if (!(std::fabs(a - e) <= 1e-5 * std::fabs(e))) { c.failf(std::string("label:") + when + "-gradient", "gradient %.9g, expected %.9g", a, e); return false; } }
        c.count("valid_losses"); return true;
    };
    int rounds = r.range(1, 3); c.desc("label|b=%d n=%d rounds=%d", b, n, rounds);
    if (r.chance(1, 2) && !good("before")) return;
    for (int q = 0; q < rounds; ++q) {
        int k = r.chance(2, 3) ? 1 : r.range(1, b); std::vector<int> at; for (int i = 0; i < k; ++i) { int a = r.chance(1, 3) ? b - 1 : r.chance(1, 2) ? 0 : r.range(0, b - 1); at.push_back(a); t.p()[a] = bad_label(r, b, n); }
        p.snapshot(); t.snapshot(); g.poison(); bool bw = r.chance(1, 2); float v = t.p()[at[0]];
        c.count(bw ? "bad_labels_backward" : "bad_labels_forward");
        bool th = bw ? throws([&] { L.backward(p.t, t.t, g.t); }) : throws([&] { L.forward(p.t, t.t); });
        if (!th) { c.failf(bw ? "label:backward-accepted" : "label:forward-accepted", "label %g of %d classes at row %d accepted", double(v), n, at[0]); return; }
        if (!p.unchanged() || !t.unchanged() || !p.canaries() || !t.canaries() || !g.canaries()) { c.fail("label:modified", "a rejected call modified a tensor"); return; }
        for (int a : at) t.p()[a] = float(lab[size_t(a)]);
        if (!good("after")) return;
    }
}

struct AnyOpt {
    std::unique_ptr<dw::optimizer::SGD> s; std::unique_ptr<dw::optimizer::SGDMomentum> m; std::unique_ptr<dw::optimizer::Adam> a; int kind;
    AnyOpt(int k, dw::ParamMap& p, float lr) : kind(k) { if (k == 0) s.reset(new dw::optimizer::SGD(p, lr)); else if (k == 1) m.reset(new dw::optimizer::SGDMomentum(p, lr, 0.5f)); else a.reset(new dw::optimizer::Adam(p, lr, {0.5f, 0.75f})); }
    void step() { if (s) s->step(); else if (m) m->step(); else a->step(); }
};
static void optimizer_case(Ctx& c) {
    Rng& r = c.rng; int kind = r.range(0, 2); dw::ParamMap pm; int np = r.range(1, 5); std::vector<std::string> names;
    auto shape = [&] { return r.chance(1, 2) ? Shape{r.range(1, 40)} : Shape{r.range(1, 8), r.range(1, 8)}; };
    auto mk = [&](const Shape& s, bool tr) { Tensor t(s); fill(r, t.data(), t.total(), SGN); dw::Parameter p(std::move(t), tr); Tensor g = p.grad(); for (size_t i = 0; i < g.total(); ++i) g.data()[i] = 0.5f; return p; };
    for (int i = 0; i < np; ++i) { names.push_back("p" + std::to_string(i)); pm.emplace(names.back(), mk(shape(), true)); }
    AnyOpt o(kind, pm, 0.125f); int pre = r.range(0, 3); for (int i = 0; i < pre; ++i) o.step();
    std::string v = r.pick(names); int how = r.range(0, kind == 0 ? 1 : 4); static const char* hn[] = {"gradient-shape", "gradient-empty", "added", "replaced-larger", "replaced-shape"}; static const char* kn[] = {"SGD", "SGDMomentum", "Adam"};
    c.desc("optimizer-%s-%s|np=%d pre=%d shape=%s", kn[kind], hn[how], np, pre, str(pm.at(v).data().shape()).c_str()); c.count(std::string("optimizer_") + hn[how]);
    dw::Parameter& P = pm.at(v); Shape s = P.data().shape(); Tensor g0 = P.grad(); dw::Parameter old = P; std::string bad = v;
    auto other = [&]() -> Shape { for (;;) { Shape q = r.chance(1, 3) ? Shape{int(prod(s))} : r.chance(1, 2) ? Shape{int(prod(s)) + r.range(1, 500)} : shape(); if (r.chance(1, 5)) { q = s; q.push_back(1); } if (q != s) return q; } };
    if (how == 0) { Tensor g(other()); fill(r, g.data(), g.total(), SGN); P.grad() = g; }
    else if (how == 1) P.grad() = Tensor();
    else if (how == 2) { bad = "extra"; pm.emplace(bad, mk(shape(), true)); }
    else if (how == 3) { Shape q = s; q[0] += r.range(1, 3000); pm.erase(v); pm.emplace(v, mk(q, true)); }
    else { Shape q = other(); pm.erase(v); pm.emplace(v, mk(q, true)); }
    auto before = bitsof(pm.at(bad).data()); bool frozen = r.chance(1, 4); if (frozen) pm.at(bad).train(false);
    if (frozen) { bool th = throws([&] { o.step(); }); c.count("optimizer_frozen"); if (th) c.count("optimizer_frozen_rejected"); }   // not used: either way
    else {
        bool th = throws([&] { o.step(); });
        if (!th) { c.fail("optimizer:accepted", "a step over a parameter with " + std::string(hn[how]) + " was performed"); return; }
        c.count("optimizer_rejections");
    }
    if (!samebits(pm.at(bad).data(), before)) { c.fail("optimizer:modified", "the offending parameter was changed"); return; }
    if (how <= 1) { P.grad() = g0; P.train(true); } else { pm.erase(bad); if (how >= 3) { pm.emplace(v, old); } }
    std::map<std::string, std::vector<float>> b4; for (auto& n : names) b4[n] = flt(pm.at(n).data());
    o.step(); c.count("optimizer_steps_after");
    for (auto& n : names) { Tensor t = pm.at(n).data(); for (size_t i = 0; i < t.total(); ++i) { double d = double(b4[n][i]) - t.data()[i]; double lo = 0, hi = 0.26; if (kind == 0) lo = hi = 0.0625; else if (kind == 1) { lo = 0.0624; hi = 0.1251; } else { lo = 0.03; hi = 0.25; } if (!(d >= lo - 1e-5 && d <= hi + 1e-5)) { c.failf("optimizer:after", "after the misuse was undone a step moved %s[%zu] by %g", n.c_str(), i, d); return; } } }
}

struct Moody : LogDataset {                                                     // fails on some samples while it is in the mood
    std::set<int> bad; int style = 0; int thrown = 0; using LogDataset::LogDataset;
    void pull(int i, Tensor& X, Tensor& y) override { if (bad.count(i)) { ++thrown; if (style == 0) throw std::runtime_error("sample unavailable"); if (style == 1) throw 42; DeepWorks_Throw() << "sample unavailable"; } LogDataset::pull(i, X, y); }
};
static void loader_case(Ctx& c) {
    Rng& r = c.rng; int how = r.range(0, 4);
    if (how <= 1) {
        bool null = how == 0; int b = null ? r.range(1, 5) : r.of({0, 0, -1, -2, -7, -1000000, std::numeric_limits<int>::min()}); bool sh = r.chance(1, 2); int n = r.of({0, 1, 3, 10, 100});
        auto ds = std::make_shared<LogDataset>(size_t(n), Shape{r.range(1, 3)}, Shape{1}); c.desc("loader-%s|b=%d n=%d shuffle=%d", null ? "null" : "batch", b, n, int(sh)); c.count(null ? "loader_null" : "loader_batch");
        bool th = throws([&] { dw::DataLoader l(null ? nullptr : ds, b, sh); Tensor X, y; l.pull(X, y); });
        if (!th) { c.fail("loader:accepted", null ? "a loader without data set was created and pulled" : "a loader with batch size " + std::to_string(b) + " was created and pulled"); return; }
        if (!ds->log.empty()) { c.fail("loader:access", "samples were accessed"); return; }
        return;
    }
    int n = r.range(1, 30), b = r.range(1, std::min(n, 7)); auto ds = std::make_shared<Moody>(size_t(n), Shape{r.range(1, 4)}, Shape{1}); ds->style = r.range(0, 2); bool sh = how == 4; int rounds = r.range(2, 12);
    c.desc("loader-error|n=%d b=%d shuffle=%d style=%d", n, b, int(sh), ds->style); dw::DataLoader l(ds, b, sh); int pos = 0; GT X, y; X.make(r, with_batch(b, ds->xs)); y.make(r, with_batch(b, ds->ys));
    for (int q = 0; q < rounds; ++q) {
        ds->bad.clear(); if (r.chance(1, 2)) { int k = r.range(1, n); while (k-- > 0) ds->bad.insert(r.range(0, n - 1)); if (r.chance(1, 3)) for (int i = 0; i < n; ++i) ds->bad.insert(i); }
        ds->log.clear(); int th0 = ds->thrown; bool ok = false; std::string kind; Tensor a = X.t, d = y.t;
        try { ok = l.pull(a, d); } catch (const std::runtime_error&) { kind = "0"; } catch (int) { kind = "1"; } catch (const std::exception&) { kind = "2"; }
        if (!ds->problem.empty()) { c.fail("loader-error:access", ds->problem); return; }
        if (!X.canaries() || !y.canaries()) { c.fail("loader-error:outside", "wrote outside the batch"); return; }
        bool threw = ds->thrown > th0, end = pos + b > n;
        if (threw != !kind.empty() || (threw && kind != std::to_string(ds->style))) { c.fail("loader-error:swallowed", threw ? "the data set's exception did not arrive" : "an exception nobody threw"); return; }
        if (threw) { c.count("loader_errors"); continue; }                       // the batch was not delivered
        if (ok == end) { c.failf("loader-error:epoch", "pull returned %d at position %d of %d, batch %d, after %d failures", int(ok), pos, n, b, ds->thrown); return; }
        if (end) { pos = 0; continue; }
        if (!sh) for (int k = 0; k < b; ++k) if (!holds(*ds, X.t, y.t, k, pos + k)) { c.failf("loader-error:sample", "row %d at position %d is not sample %d", k, pos, pos + k); return; }
        if (sh && int(ds->log.size()) != b) { c.fail("loader-error:shuffle", "a batch of another size"); return; }
        pos += b; c.count("loader_batches");
    }
}

static void dropout_case(Ctx& c) {
    Rng& r = c.rng; float p = float(r.offl({1.0, 1.0, 1.0000001, 1.5, 2, 100, -0.0001, -1, -100, NAN, INFINITY, -INFINITY, -1e-30, 3e38})); bool valid = r.chance(1, 4);
    if (valid) p = float(r.offl({0, 0.999, 0.9999, 0.5, 1e-6})); Shape in = r.chance(1, 2) ? Shape{r.range(1, 5), r.range(1, 5)} : Shape{r.range(1, 3), r.range(1, 3), r.range(1, 4), r.range(1, 4)}; bool factory = r.chance(1, 2);
    c.desc("dropout|p=%g %s %s", double(p), str(in).c_str(), factory ? "factory" : "direct");
    Tensor x(in), y(in); fill(r, x.data(), x.total(), SGN);
    bool th = throws([&] { Placeholder ph(in); Placeholder o = factory ? dw::make_layer("Dropout", "d", {{"p", dw::Attribute(p)}}, {ph}) : dw::Dropout(p)(ph); dw::Model m(ph, o); m.compile(); m.forward(x, y); });
    c.count(valid ? "dropout_valid" : "dropout_invalid");
    if (th == valid) { c.failf(valid ? "dropout:rejected" : "dropout:accepted", "probability %g", double(p)); return; }
    if (valid) for (size_t i = 0; i < y.total(); ++i) if (!std::isfinite(y.data()[i])) { c.fail("dropout:value", "output is not finite"); return; }
}

static bool keeps_state(int t) { return t == CONV || t == MAXPOOL || t == BN1 || t == BN2; }
static void order_layer(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; int t = int(idx / 8 % NLT); Spec s; Shape in; GenOpt o; o.cap4 = 7; o.cap2 = 12; o.batch = 4; gen_layer(r, t, s, in, o); Inst I(s, in); randomize(r, I, SGN); bool upd = r.chance(1, 2);
    c.desc("order-%s|%s in=%s %s", lt_name(t), s.str().c_str(), str(in).c_str(), upd ? "updateGradients" : "backward"); c.count(std::string("early_") + lt_name(t));
    std::vector<GT> x(size_t(n_in(s))), gx(size_t(n_in(s))); std::vector<Tensor> X, GX; for (size_t i = 0; i < x.size(); ++i) { x[i].make(r, in); fill(r, x[i].p(), x[i].n, SGN); x[i].snapshot(); gx[i].make(r, in); std::fill_n(gx[i].p(), gx[i].n, 0.f); X.push_back(x[i].t); GX.push_back(gx[i].t); }
    GT y, gy; y.make(r, I.out); fill(r, y.p(), y.n, UNI); y.snapshot(); gy.make(r, I.out); fill(r, gy.p(), gy.n, SGN); gy.snapshot(); std::map<std::string, std::vector<uint32_t>> pb; for (auto& kv : I.info.params()) pb[kv.first] = bitsof(kv.second.data()); for (auto& kv : I.info.buffers()) pb["b:" + kv.first] = bitsof(kv.second);
    std::vector<Tensor> oy{y.t}, og{gy.t}; bool th = throws([&] { if (upd) I.l->updateGradients(X, og); else I.l->backward(X, oy, og, GX); });
    if (keeps_state(t) && !(upd && t == MAXPOOL)) { c.count("early_rejected"); if (!th) { c.fail("order:accepted", std::string(upd ? "updateGradients" : "backward") + " before any forward pass accepted"); return; } }
    for (auto& q : x) if (!q.unchanged() || !q.canaries()) { c.fail("order:input", "an input was modified"); return; }
    for (auto& q : gx) if (!q.canaries()) { c.fail("order:outside", "wrote outside an input gradient"); return; }
    if (!y.unchanged() || !gy.unchanged() || !y.canaries() || !gy.canaries()) { c.fail("order:output", "the output or its gradient was modified"); return; }
    for (auto& kv : I.info.params()) if (!samebits(kv.second.data(), pb[kv.first])) { c.fail("order:parameter", kv.first + " was modified"); return; } for (auto& kv : I.info.buffers()) if (!samebits(kv.second, pb["b:" + kv.first])) { c.fail("order:buffer", kv.first + " was modified"); return; }
    if (t == DROPOUT) { I.train(false); } Run R; R.inputs(r, I, in, SGN); if (t == MAXPOOL) { distinct_values(r, R.x[0].p(), R.x[0].n); R.refresh(); }
    if (!R.forward(c, I, in, t != DROPOUT, "order:after")) return; if (t == DROPOUT || R.f.margin < 1e-4) { c.count("early_forward_after"); return; }
    R.grads(r, I, in, SGN, false); if (!R.backward(c, I, in, "order:after")) return; c.count("early_passes_after");
}
// Gradients of another batch size than the last forward pass had.
static void stale_layer(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; static const int ts[] = {CONV, MAXPOOL, BN1, BN2}; int t = ts[idx / 8 % 4]; Spec s; Shape in; GenOpt o; o.cap4 = 7; o.cap2 = 12; o.batch = 4; gen_layer(r, t, s, in, o); in[0] = r.range(1, 5); Shape ot = in; do ot[0] = r.range(1, 8); while (ot[0] == in[0]); Inst I(s, in); randomize(r, I, SGN); bool upd = t != MAXPOOL && r.chance(1, 2);
    c.desc("stale-%s|%s forward %s, gradients of %s %s", lt_name(t), s.str().c_str(), str(in).c_str(), str(ot).c_str(), upd ? "updateGradients" : "backward"); c.count(std::string("stale_") + lt_name(t));
    Run A; A.inputs(r, I, in, SGN); if (t == MAXPOOL) { distinct_values(r, A.x[0].p(), A.x[0].n); A.refresh(); } if (!A.forward(c, I, in, true, "stale:before")) return;
    GT x, gx, y, gy; x.make(r, ot); fill(r, x.p(), x.n, SGN); x.snapshot(); gx.make(r, ot); std::fill_n(gx.p(), gx.n, 0.f); y.make(r, ref_shape(s, ot)); fill(r, y.p(), y.n, UNI); y.snapshot(); gy.make(r, ref_shape(s, ot)); fill(r, gy.p(), gy.n, SGN); gy.snapshot();
    std::map<std::string, std::vector<uint32_t>> pb; for (auto& kv : I.info.params()) pb[kv.first] = bitsof(kv.second.data()); for (auto& kv : I.info.buffers()) pb["b:" + kv.first] = bitsof(kv.second);
    std::vector<Tensor> X{x.t}, Y{y.t}, G{gy.t}, GX{gx.t}; bool th = throws([&] { if (upd) I.l->updateGradients(X, G); else I.l->backward(X, Y, G, GX); });
    if (!th) { c.fail("stale:accepted", std::string(upd ? "updateGradients" : "backward") + " with gradients of another batch size than the last forward pass accepted"); return; } c.count("stale_rejected");
    if (!x.unchanged() || !x.canaries() || !gx.canaries() || !y.unchanged() || !y.canaries() || !gy.unchanged() || !gy.canaries()) { c.fail("stale:argument", "an argument was modified"); return; }
    for (auto& kv : I.info.params()) if (!samebits(kv.second.data(), pb[kv.first])) { c.fail("stale:parameter", kv.first + " was modified"); return; } for (auto& kv : I.info.buffers()) if (!samebits(kv.second, pb["b:" + kv.first])) { c.fail("stale:buffer", kv.first + " was modified"); return; }
    const Shape& nx = r.chance(1, 2) ? in : ot; Run R; R.inputs(r, I, nx, SGN); if (t == MAXPOOL) { distinct_values(r, R.x[0].p(), R.x[0].n); R.refresh(); }
    if (!R.forward(c, I, nx, true, "stale:after") || R.f.margin < 1e-4) return; R.grads(r, I, nx, SGN, false); if (!R.backward(c, I, nx, "stale:after")) return; c.count("stale_passes_after");
}
static void order_model(Ctx& c) {
    Rng& r = c.rng; NetOpt o; o.max_ops = 8; o.batch = 4; o.hw = 5; o.dropout = false; Net n = gen_net(r, o); net_randomize(r, n); c.desc("order-model|%s", n.str().c_str()); c.count("early_models");
    bool st = false; for (auto& q : n.ops) st |= keeps_state(q.s.t); dw::Model m = n.model(); bool again = r.chance(1, 2), uncompiled = r.chance(1, 6);
    auto mk = [&](const std::vector<int>& v) { std::vector<Tensor> o; for (int i : v) { Tensor t(n.shape[size_t(i)]); fill(r, t.data(), t.total(), r.of({SGN, UNI})); o.push_back(t); } return o; };
    auto x = mk(n.ins), y = mk(n.outs), g = mk(n.outs); std::vector<std::vector<uint32_t>> b; for (auto v : {&x, &y, &g}) for (auto& t : *v) b.push_back(bitsof(t));
    if (!uncompiled) { m.compile(); if (again) { auto x2 = mk(n.ins), y2 = mk(n.outs); m.forward(x2, y2); if (r.chance(1, 2)) m.backward(x2, y2, g); m.compile(); c.count("early_recompiled"); } }
    std::map<std::string, std::vector<uint32_t>> s0; for (auto& kv : m.state()) s0[kv.first] = bitsof(kv.second);
    bool th = throws([&] { m.backward(x, y, g); });
    if ((st || uncompiled) && !th) { c.fail("order-model:accepted", uncompiled ? "backward of a model that was not compiled" : "backward before forward accepted although layers keep state of the forward pass"); return; }
    if (th) c.count("early_models_rejected");
    for (auto& kv : m.state()) if (!samebits(kv.second, s0[kv.first])) { c.fail("order-model:state", kv.first + " was modified"); return; }
    size_t k = 0; for (auto v : {&x, &y, &g}) for (auto& t : *v) if (!samebits(t, b[k++])) { c.fail("order-model:argument", "an argument was modified"); return; }
    if (uncompiled) m.compile(); ByHand h(n); h.train(true); std::vector<std::vector<float>> X, G; for (auto& t : x) X.push_back(flt(t)); for (auto& t : g) G.push_back(flt(t));
    if (!h.forward(c, r, X, true)) return; m.forward(x, y); bool exact = true;
    for (size_t i = 0; i < y.size(); ++i) if (!near(c, "order-model:after-forward", "output", y[i].data(), h.val[size_t(n.outs[i])].data(), y[i].total(), 1e-4, &exact)) return;
    if (!exact && h.margin < 1e-3) { c.count("kinks_skipped"); return; } if (!h.backward(c, r, G)) return; m.backward(x, y, g);
    for (size_t q = 0; q < n.ops.size(); ++q) for (auto& kv : n.ops[q].info.params()) { Tensor a = kv.second.grad(), e = h.l[q].grad(kv.first.c_str()); if (!near(c, "order-model:after-backward", kv.first, a.data(), e.data(), a.total(), 1e-3, nullptr, 50 * h.noise[{q, kv.first}])) return; }
    c.count("early_models_after");
}

static void handle_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; int k = r.range(0, 2);
    if (k == 0) {
        int t = int(idx / 8 % NLT); Spec s; Shape in; gen_layer(r, t, s, in); Placeholders ph; size_t bad = r.next() % size_t(n_in(s)); for (int i = 0; i < n_in(s); ++i) ph.push_back(size_t(i) == bad || r.chance(1, 4) ? Placeholder() : Placeholder(in)); bool factory = r.chance(1, 2);
        c.desc("empty-placeholder-%s|arg %zu %s", lt_name(t), bad, factory ? "factory" : "direct"); c.count("empty_placeholders");
        if (!throws([&] { if (factory) dw::make_layer(lt_name(t), "n", attrs_of(s), ph); else build(s, ph); })) { c.fail("empty:placeholder", "an operation over an empty placeholder was built"); return; }
        for (auto& q : ph) q = Placeholder(in); Placeholder out = build(s, ph); if (out.shape() != ref_shape(s, in)) c.fail("empty:after", "wrong shape"); return;
    }
    if (k == 1) {
        Placeholder a(Shape{2, 3}), o = dw::ReLU()(a); int w = r.range(0, 4); c.desc("empty-model-argument|%d", w); c.count("empty_model_arguments");
        bool th = throws([&] { if (w == 0) dw::Model(Placeholder(), o); else if (w == 1) dw::Model(a, Placeholder()); else if (w == 2) dw::Model(Placeholder(), Placeholder()); else if (w == 3) dw::Model(Placeholders{a, Placeholder()}, Placeholders{o}); else dw::Model(Placeholders{a}, Placeholders{o, Placeholder()}); });
        if (!th) { c.fail("empty:model-argument", "a model over an empty placeholder was built"); return; }
        dw::Model m(a, o); m.compile(); Tensor x(Shape{2, 3}), y(Shape{2, 3}); fill(r, x.data(), 6, SGN); m.forward(x, y); for (size_t i = 0; i < 6; ++i) if (y.data()[i] != std::max(0.f, x.data()[i])) { c.fail("empty:after", "wrong output"); return; } return;
    }
    dw::Model m; if (r.chance(1, 3)) { dw::Model q; m = q; } int w = r.range(0, 12); std::string f = c.work + "/e.bin"; c.desc("empty-model|call %d", w); c.count("empty_models"); Tensor x(Shape{2, 3}), y(Shape{2, 3}), g(Shape{2, 3}); std::vector<Tensor> vx{x}, vy{y}, vg{g};
    bool th = throws([&] { const dw::Model& cm = m; switch (w) { case 0: m.compile(); break; case 1: m.forward(x, y); break; case 2: m.forward(vx, vy); break; case 3: m.backward(x, y, g); break; case 4: m.backward(vx, vy, vg); break; case 5: m.train(r.chance(1, 2)); break; case 6: m.getLayer("relu0"); break; case 7: if (cm.layers().size() > 1000000) c.count("odd"); break; case 8: if (m.params().size() > 1000000) c.count("odd"); break; case 9: if (m.state().size() + cm.state().size() > 1000000) c.count("odd"); break; case 10: if (cm.cfg().sorted_ops.size() > 1000000) c.count("odd"); break; case 11: dw::save(m, f); break; default: if (m.inputs().size() + m.outputs().size() > 1000000) c.count("odd"); } });
    unlink(f.c_str()); if (!th) c.failf("empty:model", "call %d of an empty model did not throw", w);
}
static void metric_case(Ctx& c) {
    Rng& r = c.rng; int b = r.range(1, 6), n = r.range(2, 6), k = r.range(0, 6); Shape P{b, n}, T = k < 4 ? Shape{b, 1} : Shape{b, n};
    switch (k) { case 0: P = {b, n, 1}; break; case 1: P = {b * n}; break; case 2: T = {b + r.range(1, 9), 1}; break; case 3: T = b > 1 ? Shape{b - 1, 1} : Shape{b, 2}; break; case 4: T = {b, n + 1}; break; case 5: T = {b, 1}; break; default: P = {b, n - 1}; }
    bool empty = r.chance(1, 8); GT p, t; p.make(r, P); fill(r, p.p(), p.n, UNI); t.make(r, T); std::fill_n(t.p(), t.n, 0.f); p.snapshot(); t.snapshot(); c.desc("metric|kind=%d %s %s empty=%d", k, str(P).c_str(), str(T).c_str(), int(empty)); c.count("metric_mismatches");
    Tensor a = empty ? Tensor() : p.t, q = t.t; if (!throws([&] { if (k < 4) dw::metric::accuracy(a, q); else dw::metric::accuracyOneHot(a, q); })) { c.fail("metric:accepted", "mismatching shapes accepted"); return; }
    if (!p.unchanged() || !t.unchanged()) c.fail("metric:modified", "a tensor was modified");
}
void run_case(Ctx& c, uint64_t idx) {
    switch (idx % 8) { case 0: loss_case(c); break; case 1: optimizer_case(c); break; case 2: loader_case(c); break; case 3: if (idx % 16 < 8) dropout_case(c); else metric_case(c); break; case 4: order_layer(c, idx); break; case 5: if (idx % 16 < 8) order_layer(c, idx); else stale_layer(c, idx / 2); break; case 6: order_model(c); break; default: handle_case(c, idx); }
}
