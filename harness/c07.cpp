#include "lcheck.hpp"
const char* PROP = "C07";
uint64_t ncases(const Ctx& c) { return c.thorough ? 576000 : 28800; }
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; Spec s; Shape in; GenOpt o; o.huge = 1000; o.cap4 = r.chance(1, 8) ? 24 : 10; gen_layer(r, CONV, s, in, o);
    if (idx % 60 == 7) { in[0] = dim(r, 70); in[1] = r.range(1, 3); s.units = r.range(1, 5); }
    if (idx % 60 == 8) { in = {r.range(1, 3), dim(r, 40), r.range(3, 8), r.range(3, 8)}; s.units = dim(r, 70); s.k = {r.range(1, 3), r.range(1, 3)}; }
    if (idx % 60 == 9) { in = {1, r.range(1, 2), r.range(20, 70), r.range(20, 70)}; s.k = {r.range(1, 7), r.range(1, 7)}; s.units = r.range(1, 4); }
    if (idx % 60 == 10) { in = {r.range(1, 2), r.range(1, 3), r.range(1, 9), r.range(1, 9)}; s.units = r.range(1, 4); s.pad = {r.range(0, 20), r.range(0, 20)}; for (size_t a = 0; a < 2; ++a) s.k[a] = r.range(1, std::min(in[2 + a] + 2 * s.pad[a], r.chance(1, 3) ? 24 : 4)); c.count("wide_padding"); }
    int mode = any_mode(r);
    c.desc("Convolution|%s in=%s mode=%s", s.str().c_str(), str(in).c_str(), mode_name(mode));
    Inst I(s, in);
    if (I.out != ref_shape(s, in)) { c.fail("Convolution:shape", "declared output shape " + str(I.out) + " expected " + str(ref_shape(s, in))); return; }
    randomize(r, I, mode);
    if (s.k[0] != s.k[1] || s.st[0] != s.st[1] || s.pad[0] != s.pad[1]) c.count("asymmetric_geometries");
    if (s.pad[0] || s.pad[1]) c.count("padded_geometries");
    int calls = r.range(1, 3);
    for (int k = 0; k < calls; ++k) {
        Shape sh = in; if (k && r.chance(1, 2)) sh[0] = r.range(1, 9);
        if (k && r.chance(1, 3)) { sh[2] = std::max(s.k[0] - 2 * s.pad[0], r.range(1, 12)); sh[3] = std::max(s.k[1] - 2 * s.pad[1], r.range(1, 12)); sh[2] = std::max(1, sh[2]); sh[3] = std::max(1, sh[3]); }
        if (k && r.chance(1, 2)) randomize(r, I, mode);
        Run R; R.inputs(r, I, sh, mode);
        if (!R.forward(c, I, sh, true, "Convolution")) return;
        if (mode == INTS || mode == TIES) {
            double mx = 0; for (double v : R.f.tol) mx = std::max(mx, v / EPS);
            if (mx < 6e7) { for (size_t i = 0; i < R.y.n; ++i) if (double(R.y.p()[i]) != R.f.y[i]) { c.failf("Convolution:exact", "output %zu is %.9g, expected exactly %.9g", i, R.y.p()[i], R.f.y[i]); return; } c.count("exact_outputs", long(R.y.n)); }
        }
        if (sh[0] > 1 && r.chance(1, 3)) {
            auto b0 = bitsof(R.y.t); size_t row = r.next() % size_t(sh[0]), K = R.x[0].n / size_t(sh[0]), P = R.y.n / size_t(sh[0]);
            for (size_t j = 0; j < K; ++j) R.x[0].p()[row * K + j] += 1.5f;
            R.refresh(); R.y.poison(); if (!R.forward(c, I, sh, true, "Convolution")) return;
            for (size_t i = 0; i < R.y.n; ++i) if (i / P != row && bits(R.y.p()[i]) != b0[i]) { c.failf("Convolution:crosstalk", "changing batch item %zu changed item %zu", row, i / P); return; }
            c.count("independence_probes");
        }
    }
}
