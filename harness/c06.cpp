#include "lcheck.hpp"
const char* PROP = "C06";
uint64_t ncases(const Ctx& c) { return c.thorough ? 624000 : 31200; }
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; Spec s; Shape in; GenOpt o; o.huge = 1000; o.cap2 = r.chance(1, 10) ? 300 : 70; gen_layer(r, LINEAR, s, in, o);
    if (idx % 200 == 5) { in = {dim(r, 300), dim(r, 600)}; s.units = dim(r, 300); }
    if (idx % 200 == 6) { in = {r.range(1, 3), dim(r, 5000)}; s.units = r.range(1, 8); }
    int mode = any_mode(r);
    c.desc("Linear|%s in=%s mode=%s", s.str().c_str(), str(in).c_str(), mode_name(mode));
    Inst I(s, in);
    if (I.out != ref_shape(s, in)) { c.fail("Linear:shape", "declared output shape " + str(I.out)); return; }
    randomize(r, I, mode);
    int calls = r.range(1, 5);
    for (int k = 0; k < calls; ++k) {
        Shape sh = in; if (k && r.chance(1, 2)) sh[0] = dim(r, 30);
        if (k && r.chance(1, 2)) { randomize(r, I, mode); c.count("weight_changes"); }       // current contents must be used
        if (k && r.chance(1, 4)) { Tensor b = I.param(r.chance(1, 2) ? "bias" : "weight"); b.data()[r.next() % b.total()] += 3.f; }
        if (k && r.chance(1, 3)) I.train(r.chance(1, 2));
        Run R; R.inputs(r, I, sh, mode);
        if (!R.forward(c, I, sh, true, "Linear")) return;
        if (mode == INTS || mode == TIES) {
            std::vector<float> e(R.f.y.begin(), R.f.y.end());
            double mx = 0; for (double v : R.f.tol) mx = std::max(mx, v / EPS);
            if (mx < 8e6 * 8) { for (size_t i = 0; i < e.size(); ++i) if (R.y.p()[i] != e[i]) { c.failf("Linear:exact", "output %zu is %.9g, expected exactly %.9g", i, R.y.p()[i], e[i]); return; } c.count("exact_outputs", long(e.size())); }
        }
        if (sh[0] > 1 && r.chance(1, 3)) {
            auto b0 = bitsof(R.y.t); size_t row = r.next() % size_t(sh[0]), K = R.x[0].n / size_t(sh[0]);
            for (size_t j = 0; j < K; ++j) R.x[0].p()[row * K + j] += 1.5f;
            R.refresh(); R.y.poison(); if (!R.forward(c, I, sh, true, "Linear")) return;
            for (size_t i = 0; i < R.y.n; ++i) if (i / size_t(s.units) != row && bits(R.y.p()[i]) != b0[i]) { c.failf("Linear:crosstalk", "changing sample %zu changed sample %zu", row, i / size_t(s.units)); return; }
            c.count("independence_probes");
        }
    }
}
