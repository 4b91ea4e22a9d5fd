#include "lcheck.hpp"
const char* PROP = "C15";
uint64_t ncases(const Ctx& c) { return c.thorough ? 374400 : 18720; }
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; int t = int(idx % NLT); Spec s; Shape in; GenOpt o; o.huge = 1500; o.cap4 = 8; o.cap2 = 24; o.batch = 6; bool lng = r.chance(1, 200); if (lng) { o.huge = 0; o.cap4 = 4; o.cap2 = 6; o.batch = 3; } gen_layer(r, t, s, in, o);
    std::string key = lt_name(t);
    int steps = lng ? r.range(260, 1100) : r.range(3, c.thorough ? 30 : 14); if (lng) c.count("long_histories");
    c.desc("%s|%s in=%s steps=%d", lt_name(t), s.str().c_str(), str(in).c_str(), steps);
    Inst I(s, in); randomize(r, I, SGN);
    bool train = true; Shape last = in;
    auto reshape_in = [&](Shape sh) -> Shape {
        if (t == DROPOUT) return in;
        int how = r.range(0, 5);
        if (how == 0) return in;
        if (how == 1) { sh[0] = r.range(1, 16); }
        else if (how == 2 && in.size() == 4 && (is4d(s) || !has_params(s))) { sh = last; std::swap(sh[2], sh[3]); }            // same element count
        else if (how == 3 && is4d(s)) { sh[2] = r.range(1, 12); sh[3] = r.range(1, 12); }
        else if (how == 4 && is4d(s)) { int m = r.of({1, 2}); sh[0] = std::max(1, in[0] * m); sh[2] = std::max(1, sh[2] / m); }
        else if (how == 5 && !has_params(s) && is4d(s)) sh = {r.range(1, 5), r.range(1, 6), r.range(1, 9), r.range(1, 9)};
        else if (!has_params(s) && !is4d(s) && !is2d(s)) { sh = Shape{r.range(1, 9), r.range(1, 40)}; }
        else if (is2d(s) && t == SOFTMAX) sh = {r.range(1, 20), r.range(1, 30)};
        else sh[0] = r.range(1, 20);
        if (t == CONV || t == MAXPOOL) for (int a = 0; a < 2; ++a) sh[size_t(2 + a)] = std::max(sh[size_t(2 + a)], std::max(1, s.k[size_t(a)] - 2 * s.pad[size_t(a)]));
        return sh;
    };
    for (int k = 0; k < steps; ++k) {
        if (r.chance(1, 4)) { train = !train; I.train(train); c.count("mode_switches"); }
        Shape sh = reshape_in(in);
        
        if (sh != last) c.count("shape_changes");
        last = sh;
        Run R; R.inputs(r, I, sh, SGN);
        for (auto& g : R.x) { if (t == MAXPOOL) distinct_values(r, g.p(), g.n); for (size_t i = 0; i < g.n; ++i) if (std::fabs(g.p()[i]) < 1e-6f) g.p()[i] = 0.5f; }
        R.refresh();
        if (t == DROPOUT) {
            I.forward(R.xt(), R.y.t); double sc = train ? 1 / (1 - double(s.p)) : 1;
            for (size_t i = 0; i < R.y.n; ++i) { double y = R.y.p()[i]; bool z = train && y == 0 && s.p > 0; if (!z && !(std::fabs(y - R.X[0][i] * sc) <= 8 * EPS * std::fabs(R.X[0][i] * sc))) { c.failf(key + ":forward", "output %zu is %g for %g", i, y, R.X[0][i]); return; } }
            c.count("forward_calls");
        } else if (!R.forward(c, I, sh, train, key)) return;
        if (is_bn(s) && train) {
            Tensor m = I.buffer("running_mean"), v = I.buffer("running_var");
            if (!check_close(c, key + ":running-mean", "running mean", m.data(), R.f.ry_mean, [&](size_t i) { return R.f.tmean[i]; })) return;
            if (!check_close(c, key + ":running-var", "running var", v.data(), R.f.ry_var, [&](size_t i) { return R.f.tvar[i]; })) return;
        }
        if (r.chance(1, 2)) {
            if (r.chance(1, 8)) { bool md = r.chance(1, 2); I.train(md); c.count("switched_before_backward"); }
            poison_grads(r, I);
            R.grads(r, I, sh, SGN, r.chance(1, 2));
            if (t == DROPOUT) {
                I.backward(R.xt(), R.y.t, R.gy.t, R.gxt()); double sc = train ? 1 / (1 - double(s.p)) : 1; Vd e(R.gx[0].n);
                for (size_t i = 0; i < e.size(); ++i) e[i] = R.GX0[0][i] + (R.y.p()[i] != 0 ? R.G[i] * sc : 0);
                if (!check_close(c, key + ":input-grad", "input gradient", R.gx[0].p(), e, [&](size_t i) { return 8 * EPS * (std::fabs(R.G[i] * sc) + std::fabs(R.GX0[0][i])); })) return;
            } else if (!R.backward(c, I, sh, key)) return;
            I.train(train);
        }
        if (r.chance(1, 3) && has_params(s)) { randomize(r, I, SGN); c.count("param_changes"); }
    }
}
