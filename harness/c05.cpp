#include "lcheck.hpp"
const char* PROP = "C05";
uint64_t ncases(const Ctx& c) { return c.thorough ? 960000 : 48000; }
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; Spec s; s.t = SOFTMAX;
    Shape in{r.chance(1, 4) ? dim(r, 300) : dim(r, 33), r.chance(1, 8) ? dim(r, 1100) : dim(r, 130)};
    if (idx % 1000 == 12) gen_huge(r, SOFTMAX, s, in);
    if (idx % 400 == 11) in = {dim(r, 2049), dim(r, 130)};
    double scale = r.offl({1, 1, 5, 30, 100, 1000, 1e5, 1e30, 1e-3}), shift = r.offl({0, 0, 10, -10, 100, -100, 1000, -1000, 1e5, -1e5, 1e30, -1e30});
    int mode = any_mode(r);
    c.desc("Softmax|in=%s mode=%s scale=%g shift=%g", str(in).c_str(), mode_name(mode), scale, shift);
    Inst I(s, in);
    int calls = r.range(1, 3);
    for (int k = 0; k < calls; ++k) {
        Shape sh = in; if (k && r.chance(1, 2)) sh[0] = dim(r, 20);
        Run R; R.inputs(r, I, sh, mode);
        for (size_t i = 0; i < R.x[0].n; ++i) R.x[0].p()[i] = float(R.x[0].p()[i] * scale + (r.chance(1, 1) ? shift : 0));
        if (r.chance(1, 6)) for (int q = 0; q < 4; ++q) R.x[0].p()[r.next() % R.x[0].n] = r.chance(1, 2) ? 3e38f : -3e38f;
        if (r.chance(1, 8)) { size_t row = r.next() % size_t(sh[0]); for (int j = 0; j < sh[1]; ++j) R.x[0].p()[row * size_t(sh[1]) + size_t(j)] = j == sh[1] / 2 ? 0.f : -float(r.real(90, 200)); }
        R.refresh();
        if (!R.forward(c, I, sh, true, "Softmax")) return;
        for (int i = 0; i < sh[0]; ++i) {
            double sum = 0; for (int j = 0; j < sh[1]; ++j) { float v = R.y.p()[size_t(i) * size_t(sh[1]) + size_t(j)]; if (!(v >= 0 && v <= 1.0f + 4e-7f)) { c.failf("Softmax:range", "row %d entry %d is %.9g", i, j, v); return; } sum += v; }
            if (!(std::fabs(sum - 1) <= (sh[1] + 64) * EPS)) { c.failf("Softmax:sum", "row %d sums to %.9g", i, sum); return; }
            c.count("rows_checked");
        }
        // shift invariance with exactly representable shifts; rows do not influence each other
        if (scale <= 30 && std::fabs(shift) <= 1000 && r.chance(1, 2)) {
            std::vector<uint32_t> b0 = bitsof(R.y.t); size_t row = r.next() % size_t(sh[0]), C = size_t(sh[1]);
            for (size_t j = 0; j < C; ++j) R.x[0].p()[row * C + j] = float(r.real(-9, 9));
            R.refresh(); R.y.poison(); I.forward(R.xt(), R.y.t);
            RefF f = ref_forward(s, sh, R.X, R.st, true);
            for (size_t i = 0; i < R.y.n; ++i) if (i / C != row && !(std::fabs(double(R.y.p()[i]) - f.y[i]) <= f.tol[i])) { c.failf("Softmax:crosstalk", "changing row %zu changed row %zu", row, i / C); return; }
            std::vector<float> y1 = flt(R.y.t); double cst = double(r.range(-64, 64));
            for (size_t j = 0; j < C; ++j) { float v = std::nearbyint(R.x[0].p()[row * C + j] * 64) / 64; R.x[0].p()[row * C + j] = v; }
            R.refresh(); I.forward(R.xt(), R.y.t); y1 = flt(R.y.t);
            for (size_t j = 0; j < C; ++j) R.x[0].p()[row * C + j] += float(cst);
            R.refresh(); I.forward(R.xt(), R.y.t);
            for (size_t j = 0; j < C; ++j) { double a = y1[row * C + j], b = R.y.p()[row * C + j]; if (!(std::fabs(a - b) <= 1e-5 * a * (1 + C * 0.02) + 1e-37)) { c.failf("Softmax:shift", "adding %g to row %zu changed entry %zu from %.9g to %.9g", cst, row, j, a, b); return; } }
            c.count("shift_probes");
        }
    }
}
