// One operation object applied to several inputs: every application computes the operation on its own input with the
// shared parameters; an input the parameters do not fit is rejected.
#include "ser.hpp"
const char* PROP = "C40";
uint64_t ncases(const Ctx& c) { return c.thorough ? 400000 : 20000; }
struct AnyOp { std::function<Placeholder(const Placeholders&)> call; std::function<LayerInfo()> info; };
template <class Op> AnyOp wrap(std::shared_ptr<Op> op) { return {[op](const Placeholders& p) -> Placeholder { if constexpr (std::is_same<Op, dw::Add>::value) return (*op)(p[0], p[1]); else return (*op)(p[0]); }, [op] { return op->m_info; }}; }
static AnyOp make_op(const Spec& s) {
    switch (s.t) {
        case LINEAR: return wrap(std::make_shared<dw::Linear>(s.units, s.name));
        case RELU: return wrap(std::make_shared<dw::ReLU>(s.name));
        case LEAKY: return wrap(std::make_shared<dw::LeakyReLU>(s.alpha, s.name));
        case ELU_: return wrap(std::make_shared<dw::ELU>(s.alpha, s.name));
        case SIGMOID: return wrap(std::make_shared<dw::Sigmoid>(s.name));
        case SOFTMAX: return wrap(std::make_shared<dw::Softmax>(s.name));
        case BN1: return wrap(std::make_shared<dw::BatchNorm1D>(s.eps, s.alpha, s.name));
        case BN2: return wrap(std::make_shared<dw::BatchNorm2D>(s.eps, s.alpha, s.name));
        case MAXPOOL: return wrap(std::make_shared<dw::MaxPooling>(s.k, s.pad, s.st, s.name));
        case CONV: return wrap(std::make_shared<dw::Convolution>(s.units, s.k, s.pad, s.st, s.name));
        case GAP: return wrap(std::make_shared<dw::GlobalAvgPooling>(s.name));
        case DROPOUT: return wrap(std::make_shared<dw::Dropout>(s.p, s.name));
        default: return wrap(std::make_shared<dw::Add>(s.name));
    }
}
static Shape other(Rng& r, const Spec& s, const Shape& in) {                    // another shape the same parameters fit
    Shape o = in; if (r.chance(1, 5)) return o;
    if (o.size() > 1 || s.t == DROPOUT) o[0] = r.range(s.t == BN1 || s.t == BN2 ? 2 : 1, 9);
    switch (s.t) {
        case LINEAR: if (r.chance(1, 2)) { size_t k = prod(in) / size_t(in[0]); int a = 1; for (int d = 2; d < 9; ++d) if (k % size_t(d) == 0 && r.chance(1, 2)) a = d; o = {o[0], a, int(k) / a}; if (r.chance(1, 2)) o = {o[0], int(k)}; } return o;
        case BN1: return o;
        case SOFTMAX: o[1] = dim(r, 20); return o;
        case BN2: case GAP: o[2] = dim(r, 9); o[3] = dim(r, 9); if (s.t == GAP) o[1] = dim(r, 9); return o;
        case CONV: case MAXPOOL: for (size_t a = 0; a < 2; ++a) o[2 + a] = std::max(1, s.k[a] - 2 * s.pad[a]) + r.range(0, 7); if (s.t == MAXPOOL) o[1] = dim(r, 7); return o;
        default: { Spec q; Shape w; gen_layer(r, s.t, q, w); return w; }
    }
}
static bool misfit(Rng& r, const Spec& s, Shape& o) {                            // a shape they do not fit
    if (!has_params(s)) return false;
    int f = 0; do f = r.chance(1, 2) ? dim(r, 70) : o[1] + r.of({-1, 1, 7}); while (f < 1 || f == o[1]);
    if (s.t == LINEAR) { if (o.size() != 2 && r.chance(1, 2)) { size_t a = 1 + r.next() % (o.size() - 1); o[a] += r.range(1, 3); return true; } }
    o[1] = f; return true;
}
struct App { Shape in, out; Placeholders ph; Placeholder y; std::unique_ptr<Inst> inst; std::unique_ptr<dw::Model> m; std::unique_ptr<Run> run; bool pending = false; };
static void values(Rng& r, const Spec& s, App& a) {
    if (s.t == MAXPOOL || s.t == RELU || s.t == LEAKY || s.t == ELU_) for (auto& g : a.run->x) distinct_values(r, g.p(), g.n);
    a.run->refresh();
}
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; int t = int(idx % NLT); Spec s; Shape in; GenOpt go; go.batch = 6; go.cap2 = 24; go.cap4 = 8; gen_layer(r, t, s, in, go); if (is_bn(s)) in[0] = std::max(in[0], 2);
    if (r.chance(1, 2)) s.name = "shared"; int napp = r.range(2, 4); AnyOp op = make_op(s); std::vector<std::unique_ptr<App>> as; std::string key = lt_name(t);
    std::string d = key + "|" + s.str(); bool started = false; std::map<std::string, const float*> at; std::map<std::string, std::vector<uint32_t>> init;
    auto same_storage = [&](const LayerInfo& i, const char* when) -> bool {
        std::map<std::string, const float*> now; for (auto& kv : i.params()) { now["p." + kv.first] = kv.second.data().data(); now["g." + kv.first] = kv.second.grad().data(); } for (auto& kv : i.buffers()) now["b." + kv.first] = kv.second.data();
        if (!started) { at = now; started = true; return true; }
        if (now != at) { c.fail(key + ":storage", std::string("parameters, gradients or buffers were replaced ") + when); return false; } return true;
    };
    auto snapshot = [&] { std::map<std::string, std::vector<uint32_t>> m; LayerInfo i = op.info(); for (auto& kv : i.params()) m[kv.first] = bitsof(kv.second.data()); for (auto& kv : i.buffers()) m[kv.first] = bitsof(kv.second); return m; };
    auto apply = [&](const Shape& sh) -> bool {
        auto a = std::make_unique<App>(); a->in = sh; for (int i = 0; i < n_in(s); ++i) a->ph.push_back(Placeholder(sh));
        auto before = snapshot(); if (throws([&] { a->y = op.call(a->ph); })) { c.fail(key + ":rejected", "applying the operation to " + str(sh) + " is rejected"); return false; }
        a->out = a->y.shape(); if (a->out != ref_shape(s, sh)) { c.fail(key + ":shape", str(sh) + " gives " + str(a->out)); return false; }
        if (!as.empty() && snapshot() != before) { c.fail(key + ":parameters", "a further application changed parameters or buffers"); return false; }
        if (!same_storage(op.info(), "by applying the operation once again")) return false;
        a->inst = std::make_unique<Inst>(s, op.info(), sh, a->out); a->run = std::make_unique<Run>(); as.push_back(std::move(a)); c.count("applications"); return true;
    };
    auto reject = [&](Shape sh) -> bool {
        if (!misfit(r, s, sh)) return true; auto before = snapshot(); Placeholders p; for (int i = 0; i < n_in(s); ++i) p.push_back(Placeholder(sh));
        if (!throws([&] { op.call(p); })) { c.fail(key + ":misfit-accepted", "parameters made for " + str(as[0]->in) + " accepted for " + str(sh)); return false; }
        if (snapshot() != before || !same_storage(op.info(), "by a rejected application")) { c.fail(key + ":misfit-changed", "a rejected application changed parameters"); return false; } c.count("misfits_rejected"); return true;
    };
    for (int k = 0; k < napp; ++k) { Shape sh = k ? other(r, s, in) : in; d += str(sh); c.d = d; c.writecur(); if (!apply(sh)) return; if (!k) { Inst& I = *as[0]->inst; randomize(r, I, SGN); if (is_bn(s)) for (size_t i = 0; i < I.buffer("running_var").total(); ++i) { I.buffer("running_var").data()[i] = float(r.real(0.3, 2)); I.buffer("running_mean").data()[i] = float(r.real(-1, 1)); } } if (r.chance(1, 4) && !reject(sh)) return; }
    c.desc(d); bool models = r.chance(2, 3);
    if (models) for (auto& a : as) {
        a->m.reset(new dw::Model(a->ph, {a->y})); a->m->compile(); c.count("models");
        if (a->m->layers().size() != 1 || a->m->layers()[0].name() != as[0]->m->layers()[0].name() || (!s.name.empty() && a->m->layers()[0].name() != s.name)) { c.fail(key + ":name", "applications of one operation have different names"); return; }
        std::string n = a->m->layers()[0].name(); for (auto& kv : op.info().params()) { auto it = a->m->params().find(n + "." + kv.first); if (it == a->m->params().end() || it->second.data().data() != kv.second.data().data()) { c.fail(key + ":params", "model does not share " + kv.first); return; } }
    }
    if (r.chance(1, 3)) {                                                       // two applications in one model would need one name twice
        App &a = *as[r.next() % as.size()], &b = *as[r.next() % as.size()]; if (&a != &b) { Placeholders i = a.ph; i.insert(i.end(), b.ph.begin(), b.ph.end()); if (!throws([&] { dw::Model m(i, {a.y, b.y}); })) { c.fail(key + ":one-model", "a model with two layers of one name is accepted"); return; } c.count("one_model_rejected"); }
    }
    bool train = true; int steps = r.range(3, 8);
    auto forward = [&](App& a) -> bool {
        a.run->inputs(r, *a.inst, a.in, SGN); values(r, s, a); Run& R = *a.run; a.pending = false;
        R.st = state_of(*a.inst); std::vector<Tensor> y{R.y.t}; if (a.m) a.m->forward(R.xt(), y); else a.inst->l->forward(R.xt(), y); c.count("forwards");
        if (!R.y.canaries()) { c.fail(key + ":outside", "forward wrote outside its output"); return false; }
        for (auto& g : R.x) if (!g.unchanged() || !g.canaries()) { c.fail(key + ":input", "forward changed its input"); return false; }
        if (t == DROPOUT && train) {
            size_t kept = 0; for (size_t i = 0; i < R.y.n; ++i) { double v = R.y.p()[i], x = R.X[0][i]; if (v == 0) continue; ++kept; if (!(std::fabs(v - x / (1 - double(s.p))) <= 1e-5 * (1 + std::fabs(v)))) { c.fail(key + ":dropout", "an output is neither dropped nor scaled"); return false; } }
            if (s.p == 0 && kept < R.y.n) { for (size_t i = 0; i < R.y.n; ++i) if (R.y.p()[i] == 0 && R.X[0][i] != 0) { c.fail(key + ":dropout", "an output is dropped at p = 0"); return false; } } c.count("dropouts"); a.pending = true; return true;
        }
        R.f = ref_forward(s, a.in, R.X, R.st, train); if (R.f.y.size() != R.y.n) { c.fail(key + ":size", "size"); return false; }
        if (!check_close(c, key + ":forward", "output", R.y.p(), R.f.y, [&](size_t i) { return R.f.tol[i]; })) return false;
        if (is_bn(s)) { LayerInfo i = op.info(); if (!check_close(c, key + ":running-mean", "running mean", i.buffers().at("running_mean").data(), R.f.ry_mean, [&](size_t q) { return R.f.tmean[q]; })) return false; if (!check_close(c, key + ":running-var", "running variance", i.buffers().at("running_var").data(), R.f.ry_var, [&](size_t q) { return R.f.tvar[q]; })) return false; }
        a.pending = true; return true;
    };
    auto backward = [&](App& a) -> bool {
        Run& R = *a.run; R.grads(r, *a.inst, a.in, SGN, true); poison_grads(r, *a.inst); c.count("backwards"); a.pending = false;
        if (a.m) { a.m->backward(R.xt(), {R.y.t}, {R.gy.t}); R.b = ref_backward(s, a.in, R.X, R.st, R.f, R.G, R.GX0); for (auto& kv : R.b.gp) { Tensor g = a.inst->grad(kv.first.c_str()); auto& tl = R.b.tp[kv.first]; c.count("gradients"); if (!check_close(c, key + ":gradient-" + kv.first, kv.first.c_str(), g.data(), kv.second, [&](size_t i) { return tl[i]; })) return false; } return true; }
        c.count("gradients"); return R.backward(c, *a.inst, a.in, key);
    };
    for (int st = 0; st < steps; ++st) {
        App& a = *as[r.next() % as.size()]; int what = r.range(0, 7);
        if (what == 0) { bool md = r.chance(1, 2); if (a.m) a.m->train(md); else a.inst->train(md); train = md; for (auto& q : as) { q->pending = false; for (auto& kv : q->inst->info.params()) if (kv.second.is_trainable() != md) { c.fail(key + ":mode", "applications of one operation have different modes"); return; } } c.count("mode_switches"); if (op.info().params().empty()) train = true; }
        else if (what == 1) { if (!reject(a.in)) return; }
        else if (what == 2 && as.size() < 6 && !models) { if (!apply(other(r, s, in))) return; c.count("later_applications"); }
        else if (what == 3) { std::vector<App*> v; for (auto& q : as) if (r.chance(2, 3)) v.push_back(q.get()); for (auto q : v) if (!forward(*q)) return; for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.next() % i]); for (auto q : v) if (q->pending && t != DROPOUT && !backward(*q)) return; if (v.size() > 1) c.count("interleavings"); }
        else { if (!forward(a)) return;
            if (a.pending && t == DROPOUT && !a.m && train) {                       // the gradient passes exactly where the value did
                Run& R = *a.run; R.grads(r, *a.inst, a.in, POS, true); std::vector<Tensor> o{R.y.t}, g{R.gy.t}, gx = R.gxt(); a.inst->l->backward(R.xt(), o, g, gx); c.count("gradients");
                for (size_t i = 0; i < R.y.n; ++i) { if (R.X[0][i] == 0) continue; double w = R.y.p()[i] == 0 ? 0 : R.G[i] / (1 - double(s.p)); if (!(std::fabs(R.gx[0].p()[i] - w) <= 1e-5 * (1 + std::fabs(w)))) { c.fail(key + ":dropout-gradient", "the gradient passes elsewhere than the value"); return; } }
            } else if (a.pending && t != DROPOUT && !backward(a)) return; }
    }
    for (auto& a : as) if (!forward(*a)) return;
}
