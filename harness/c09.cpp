#include "lcheck.hpp"
const char* PROP = "C09";
uint64_t ncases(const Ctx& c) { return c.thorough ? 960000 : 48000; }
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; Spec s; Shape in; GenOpt o; o.huge = 800; o.cap4 = r.chance(1, 10) ? 20 : 8; gen_layer(r, GAP, s, in, o);
    if (idx % 300 == 5) in = {r.range(1, 2), r.range(1, 3), dim(r, 300), dim(r, 300)};
    int mode = any_mode(r);
    c.desc("GlobalAvgPooling|in=%s mode=%s", str(in).c_str(), mode_name(mode));
    Inst I(s, in);
    int calls = r.range(1, 3);
    for (int k = 0; k < calls; ++k) {
        Shape sh = in; if (k) sh = {r.range(1, 6), dim(r, 9), dim(r, 9), dim(r, 9)};
        Run R; R.inputs(r, I, sh, mode);
        if (!R.forward(c, I, sh, true, "GlobalAvgPooling")) return;
        int reps = r.range(1, 2);
        for (int q = 0; q < reps; ++q) {
            R.grads(r, I, sh, num_mode(r), r.chance(1, 2));
            if (!R.backward(c, I, sh, "GlobalAvgPooling")) return;
        }
        // only the own plane contributes: integer data exact when the plane is a power of two
        if (mode == INTS) { int P = sh[2] * sh[3]; if ((P & (P - 1)) == 0) { for (size_t i = 0; i < R.y.n; ++i) if (double(R.y.p()[i]) != R.f.y[i]) { c.failf("GlobalAvgPooling:exact", "output %zu is %.9g expected %.9g", i, R.y.p()[i], R.f.y[i]); return; } c.count("exact_outputs", long(R.y.n)); } }
    }
}
