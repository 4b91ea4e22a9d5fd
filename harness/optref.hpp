// Double-precision reference optimizers that follow the real ones step by step, with error bounds.
#pragma once
#include "common.hpp"
#include <deepworks/optimizer.hpp>
#include <deepworks/parameter.hpp>

enum OptKind { SGD_, MOM_, ADAM_ };
inline const char* opt_name(int k) { static const char* n[] = {"SGD", "SGDMomentum", "Adam"}; return n[k]; }

struct OptRef {
    int kind; double gamma = 0.9, b1 = 0.9, b2 = 0.999, epsi = 0.001; size_t t = 0;
    struct S { std::vector<double> m, v, em, ev; };
    std::map<std::string, S> st;
    // Expected new weights and tolerances for one step of one parameter.  Call begin() once per step.
    void begin() { ++t; }
    void step(const std::string& name, double lr, const std::vector<double>& w, const std::vector<double>& g, std::vector<double>& nw, std::vector<double>& tol) {
        size_t n = w.size(); nw.resize(n); tol.resize(n);
        S& s = st[name]; if (s.m.size() != n) { s.m.assign(n, 0); s.v = s.em = s.ev = s.m; }
        const double tiny = 1e-37;
        double c1 = 1 - std::pow(b1, double(t)), c2 = 1 - std::pow(b2, double(t));
        for (size_t i = 0; i < n; ++i) {
            double d, ed;
            if (kind == SGD_) { d = lr * g[i]; ed = EPS * std::fabs(d) + tiny; }
            else if (kind == MOM_) {
                double a = gamma * s.v[i], b = lr * g[i];
                s.ev[i] = gamma * s.ev[i] + 3 * EPS * (std::fabs(a) + std::fabs(b)) + tiny;
                s.v[i] = a + b; d = s.v[i]; ed = s.ev[i];
            } else {
                double a = b1 * s.m[i], b = (1 - b1) * g[i];
                s.em[i] = b1 * s.em[i] + 3 * EPS * (std::fabs(a) + std::fabs(b)) + tiny; s.m[i] = a + b;
                s.v[i] = b2 * s.v[i] + (1 - b2) * g[i] * g[i];
                s.ev[i] = b2 * s.ev[i] + 4 * EPS * s.v[i] + tiny;
                double mh = s.m[i] / c1, vh = s.v[i] / c2, evh = s.ev[i] / c2 + 4 * EPS * vh;
                double sq = std::sqrt(vh), esq = sq > 0 ? std::min(evh / sq, std::sqrt(evh)) : std::sqrt(evh);
                double den = sq + epsi, eden = esq + 2 * EPS * den;
                d = lr * mh / den;
                double lowden = std::max(den - eden, den * 0.25);
                ed = std::fabs(lr) * (s.em[i] / c1 + 4 * EPS * std::fabs(mh)) / lowden + std::fabs(d) * (eden / lowden + 8 * EPS) + tiny;
            }
            nw[i] = w[i] - d; tol[i] = ed + 2 * EPS * (std::fabs(w[i]) + std::fabs(d));
        }
    }
};

// The real optimizers behind one interface.
struct OptReal {
    int kind; std::unique_ptr<dw::optimizer::SGD> s; std::unique_ptr<dw::optimizer::SGDMomentum> m; std::unique_ptr<dw::optimizer::Adam> a;
    OptReal(int k, dw::ParamMap& p, float lr, float gamma, std::array<float, 2> betas, float eps, size_t iters, bool defaults) : kind(k) {
        if (k == SGD_) s.reset(new dw::optimizer::SGD(p, lr));
        else if (k == MOM_) m.reset(defaults ? new dw::optimizer::SGDMomentum(p, lr) : new dw::optimizer::SGDMomentum(p, lr, gamma));
        else a.reset(defaults ? new dw::optimizer::Adam(p, lr) : new dw::optimizer::Adam(p, lr, betas, eps, iters));
    }
    void step() { if (s) s->step(); else if (m) m->step(); else a->step(); }
    float lr() const { return s ? s->get_lr() : m ? m->get_lr() : a->get_lr(); }
    void lr(float x) { if (s) s->set_lr(x); else if (m) m->set_lr(x); else a->set_lr(x); }
};

// A monitored optimizer run.  freeze: 0 never, otherwise a random schedule.
inline void optimizer_run(Ctx& c, int kind, bool freeze) {
    Rng& r = c.rng;
    bool defaults = r.chance(1, 4);
    float gamma = defaults ? 0.9f : float(r.offl({0, 0.5, 0.9, 0.99, 0.3, 1}));
    std::array<float, 2> betas = {0.9f, 0.999f}; float epsi = 0.001f; size_t iters = 0;
    if (!defaults) { betas = {float(r.offl({0, 0.5, 0.9, 0.95, 0.99})), float(r.offl({0.1, 0.5, 0.9, 0.99, 0.999, 0.9999}))}; epsi = float(r.offl({1e-8, 1e-6, 1e-3, 0.1, 1})); iters = size_t(r.of({0, 0, 1, 5, 100, 5000, 32767, 65534, 1000000})); }
    float lr = float(r.offl({1e-4, 1e-3, 0.01, 0.1, 0.5, 1, 0.037}));
    int np = r.range(1, r.chance(1, 8) ? 20 : 5);
    int steps = r.range(1, c.thorough ? 400 : (r.chance(1, 5) ? 120 : 25));
    int special = r.range(0, 199) < 3 ? r.range(1, 3) : 0;      // a long run of one small parameter, many parameters, or a parameter beyond 16 bits
    if (special == 1) { np = 1; steps = r.chance(1, 12) ? r.range(65600, 66500) : r.range(1000, 6000); c.count("long_runs"); }
    else if (special == 2) { np = r.range(100, 400); steps = r.range(1, 8); }
    else if (special == 3) { np = r.range(1, 2); steps = r.range(1, 6); c.count("large_parameters"); }
    OptRef ref; ref.kind = kind; ref.gamma = gamma; ref.b1 = betas[0]; ref.b2 = betas[1]; ref.epsi = epsi; ref.t = iters;
    std::string d = std::string(opt_name(kind)) + "|lr=" + std::to_string(lr) + (kind == MOM_ ? " gamma=" + std::to_string(gamma) : kind == ADAM_ ? " betas=" + std::to_string(betas[0]) + "," + std::to_string(betas[1]) + " eps=" + std::to_string(epsi) + " t0=" + std::to_string(iters) : "") + " steps=" + std::to_string(steps);
    struct P { std::string name; GT w, g; Shape s; int gmode; double scale; };
    std::vector<std::unique_ptr<P>> ps; dw::ParamMap pm; std::vector<dw::Parameter> handles;
    for (int i = 0; i < np; ++i) {
        auto p = std::make_unique<P>();
        p->name = np > 26 || r.of({0, 1}) ? "layer" + std::to_string(i) + ".weight" : std::string(1, char('a' + i)) + ".b";
        int k = r.range(1, 4); long tot = 1;
        if (special == 1) { tot = r.range(1, 3); p->s = {int(tot)}; k = 0; } else if (special == 2) { tot = r.range(1, 5); p->s = {int(tot)}; k = 0; } else if (special == 3) { tot = r.range(65500, 140000); if (r.chance(1, 2)) p->s = {int(tot)}; else { int a = r.range(2, 300); p->s = {a, int(tot) / a}; tot = a * (tot / a); } k = 0; }
        for (int j = 0; j < k; ++j) { int x = dim(r, k == 1 ? 1200 : k == 2 ? 60 : 9); tot *= x; p->s.push_back(x); }
        p->w.make(r, p->s); fill(r, p->w.p(), p->w.n, r.of({SGN, MIXED, INTS, WIDE}));
        if (i && r.chance(1, 6) && ps[0]->s.size()) {}                       // independent storage always
        p->gmode = r.of({SGN, SGN, MIXED, INTS, SPARSE, CONSTV, NEG}); p->scale = r.offl({1, 1, 1, 1e-6, 1e4, 1e-12});
        dw::Parameter par{Tensor(p->w.t)};
        if (par.grad().shape() != p->s) { c.fail("parameter:grad-shape", "gradient shape differs from the parameter's"); return; }
        for (size_t q = 0; q < p->w.n; ++q) if (par.grad().data()[q] != 0) { c.fail("parameter:grad-init", "gradient does not start at zero"); return; }
        if (!par.is_trainable()) { c.fail("parameter:trainable", "parameter does not start trainable"); return; }
        if (r.chance(1, 2)) { p->g.make(r, p->s); par.grad() = p->g.t; } else p->g.t = par.grad(), p->g.n = p->w.n;
        if (i < 8) d += " " + str(p->s);
        handles.push_back(par);
        pm.emplace(p->name, par);
        ps.push_back(std::move(p));
    }
    c.desc(d);
    std::string key = opt_name(kind);
    std::vector<bool> on(size_t(np), true);
    if (freeze) for (int i = 0; i < np; ++i) if (r.chance(1, 3)) { on[size_t(i)] = false; handles[size_t(i)].train(false); }   // frozen before construction
    OptReal opt(kind, pm, lr, gamma, betas, epsi, iters, defaults);
    for (int k = 0; k < steps; ++k) {
        if (r.chance(1, 6)) { lr = float(r.offl({1e-5, 1e-3, 0.02, 0.3, 1, 0, 0.5})); opt.lr(lr); c.count("lr_changes"); }
        if (opt.lr() != lr) { c.failf(key + ":get_lr", "get_lr() is %g after set_lr(%g)", opt.lr(), lr); return; }
        if (freeze) for (int i = 0; i < np; ++i) if (r.chance(1, 4)) {
            on[size_t(i)] = !on[size_t(i)]; c.count("freeze_changes");
            if (r.chance(1, 2)) handles[size_t(i)].train(on[size_t(i)]); else pm.at(ps[size_t(i)]->name).train(on[size_t(i)]);
            if (pm.at(ps[size_t(i)]->name).is_trainable() != on[size_t(i)]) { c.fail("parameter:train-flag", "trainable flag not shared"); return; }
        }
        std::vector<std::vector<double>> W, G;
        for (auto& p : ps) {
            if (k == 0 || !r.chance(1, 6)) { fill(r, p->g.p(), p->g.n, p->gmode); for (size_t i = 0; i < p->g.n; ++i) p->g.p()[i] = float(p->g.p()[i] * p->scale); }
            p->g.snapshot(); p->w.snapshot(); W.push_back(p->w.dbl()); G.push_back(p->g.dbl());
        }
        opt.step(); ref.begin(); c.count("steps");
        for (int i = 0; i < np; ++i) {
            P& p = *ps[size_t(i)];
            if (!p.g.unchanged()) { c.fail(key + ":gradient-modified", "a step modified the gradient of " + p.name); return; }
            if (!p.w.canaries() || !p.g.canaries()) { c.fail(key + ":outside", "a step wrote outside a parameter or gradient"); return; }
            if (handles[size_t(i)].data().data() != p.w.p() || handles[size_t(i)].data().shape() != p.s) { c.fail(key + ":storage", "a step replaced a parameter's storage"); return; }
            if (!on[size_t(i)]) { c.count("frozen_checks"); if (!p.w.unchanged()) { c.failf(key + ":frozen-modified", "step %d modified frozen parameter %s", k, p.name.c_str()); return; } continue; }
            std::vector<double> nw, tol; ref.step(p.name, lr, W[size_t(i)], G[size_t(i)], nw, tol);
            if (!check_close(c, key + ":update", ("step " + std::to_string(k) + " " + p.name).c_str(), p.w.p(), nw, [&](size_t q) { return tol[q]; })) return;
            c.count("param_updates");
        }
    }
    c.maxi("steps", steps); c.maxi("params", np);
}
