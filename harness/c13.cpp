#include "lcheck.hpp"
const char* PROP = "C13";
uint64_t ncases(const Ctx& c) { return c.thorough ? 780000 : 39000; }
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; int t = int(idx % NLT); Spec s; Shape in; GenOpt o; o.huge = 600; o.cap4 = r.chance(1, 8) ? 14 : 7; o.cap2 = r.chance(1, 10) ? 260 : 48; o.batch = 6;
    gen_layer(r, t, s, in, o);
    if (idx % 260 < 13 && t != CONV) { in[0] = std::max(2, dim(r, 130)); }
    std::string key = lt_name(t);
    int mode = r.of({SGN, SGN, UNI, INTS, POS, NEG, SPARSE, MIXED});
    c.desc("%s|%s in=%s mode=%s", lt_name(t), s.str().c_str(), str(in).c_str(), mode_name(mode));
    c.count(std::string("layer_") + lt_name(t));
    Inst I(s, in);
    randomize(r, I, mode == INTS ? INTS : SGN);
    int rounds = r.range(1, 3);
    for (int k = 0; k < rounds; ++k) {
        Shape sh = in; if (k && t != DROPOUT && r.chance(1, 2)) sh[0] = r.range(1, 7);
        Run R; R.inputs(r, I, sh, mode);
        for (auto& g : R.x) {
            if (t == DROPOUT) for (size_t i = 0; i < g.n; ++i) if (std::fabs(g.p()[i]) < 1e-6f) g.p()[i] = r.chance(1, 2) ? 0.5f : -0.5f;
            if (t == RELU || t == LEAKY || t == ELU_) {                 // exact zeros, of both signs, and values next to them
                if (r.chance(1, 2)) for (int q = 0; q < 5; ++q) g.p()[r.next() % g.n] = float(r.offl({0.0, 0.0, -0.0, -0.0, 1e-7, -1e-7, 1e-30, -1e-30, 1e-40, -1e-40}));
                c.count("kink_inputs");
            }
            if (t == MAXPOOL) distinct_values(r, g.p(), g.n);
            if (is_bn(s) && mode == CONSTV) fill(r, g.p(), g.n, SGN);
        }
        if (t == SIGMOID && r.chance(1, 3)) for (auto& g : R.x) for (size_t i = 0; i < g.n; ++i) g.p()[i] *= 6;
        R.refresh();
        bool train = !r.chance(1, 4); I.train(train); if (!train) c.count("evaluation_rounds");
        bool same = t == ADD && r.chance(1, 2);          // the same tensor used twice
        if (same) { R.X[1] = R.X[0]; }
        int fw = r.chance(1, 4) ? 2 : 1;
        for (int q = 0; q < fw; ++q) {
            if (same) { std::vector<Tensor> xs{R.x[0].t, R.x[0].t}; I.forward(xs, R.y.t); R.f = ref_forward(s, sh, R.X, R.st = state_of(I), train); }
            else if (t == DROPOUT) I.forward(R.xt(), R.y.t);
            else if (!R.forward(c, I, sh, train, key)) return;
        }
        int bw = r.range(1, 3);
        bool zero = r.chance(1, 3);
        if (r.chance(1, 4)) { I.train(r.chance(1, 2)); c.count("switched_before_backward"); }       // the mode of the forward pass counts
        for (int q = 0; q < bw; ++q) {
            R.grads(r, I, sh, r.of({SGN, INTS, UNI, MIXED, SPARSE, NEG}), zero);
            if (q && r.chance(1, 2)) { /* second contribution on top of the first */ }
            if (t == DROPOUT) {
                I.backward(R.xt(), R.y.t, R.gy.t, R.gxt());
                double sc = train ? 1 / (1 - double(s.p)) : 1; Vd e(R.gx[0].n); for (size_t i = 0; i < e.size(); ++i) e[i] = R.GX0[0][i] + (R.y.p()[i] != 0 ? R.G[i] * sc : 0);
                if (!check_close(c, key + ":input-grad", "input gradient", R.gx[0].p(), e, [&](size_t i) { return 8 * EPS * (std::fabs(R.G[i] * sc) + std::fabs(R.GX0[0][i])); })) return;
                c.count("backward_calls");
            } else if (same) {
                std::vector<Tensor> xs{R.x[0].t, R.x[0].t}, gs{R.gx[0].t, R.gx[0].t}; I.backward(xs, R.y.t, R.gy.t, gs);
                Vd e(R.gx[0].n); for (size_t i = 0; i < e.size(); ++i) e[i] = R.GX0[0][i] + 2 * R.G[i];
                if (!check_close(c, key + ":shared-input", "gradient of the shared input", R.gx[0].p(), e, [&](size_t i) { return 4 * EPS * (2 * std::fabs(R.G[i]) + std::fabs(R.GX0[0][i])); })) return;
                c.count("shared_inputs");
            } else {
                if (!R.backward(c, I, sh, key, false)) return;
                // accumulate a second time on top of the result
                if (r.chance(1, 3)) {
                    for (size_t j = 0; j < R.gx.size(); ++j) R.GX0[j] = R.gx[j].dbl();
                    if (!R.backward(c, I, sh, key + ":again", false)) return;
                    c.count("double_accumulations");
                }
            }
        }
    }
}
