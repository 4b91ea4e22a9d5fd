#include "lcheck.hpp"
#include <cfloat>
const char* PROP = "C08";
uint64_t ncases(const Ctx& c) { return c.thorough ? 1000000 : 50000; }
// Which window's gradient went where, decoded from power-of-two output gradients.
static void decode(Ctx& c, Inst& I, const Shape& in, Run& R) {
    const Spec& s = I.s; Shape o = ref_shape(s, in); int HO = o[2], WO = o[3], H = in[2], W = in[3], n = HO * WO;
    if (n > 22) return;
    Rng& r = c.rng;
    R.grads(r, I, in, INTS, true);
    for (size_t i = 0; i < R.gy.n; ++i) R.gy.p()[i] = float(1 << (i % size_t(n)));
    I.backward(R.xt(), R.y.t, R.gy.t, R.gxt());
    if (!R.gx[0].canaries()) { c.fail("MaxPooling:outside", "backward wrote outside the input gradient"); return; }
    for (int pl = 0; pl < in[0] * in[1]; ++pl) {
        std::vector<int> seen(size_t(n), 0);
        for (int q = 0; q < H * W; ++q) {
            double v = R.gx[0].p()[size_t(pl) * size_t(H * W) + size_t(q)];
            if (!(v >= 0 && v < double(1 << n)) || v != std::floor(v)) { c.failf("MaxPooling:routing", "gradient %g at plane %d position %d is no sum of window gradients", v, pl, q); return; }
            unsigned m = unsigned(v);
            for (int j = 0; j < n; ++j) if (m >> j & 1) {
                int y0 = (j / WO) * s.st[0] - s.pad[0], x0 = (j % WO) * s.st[1] - s.pad[1], iy = q / W, ix = q % W;
                if (iy < y0 || iy >= y0 + s.k[0] || ix < x0 || ix >= x0 + s.k[1]) { c.failf("MaxPooling:routing", "gradient of window %d went to position %d outside the window", j, q); return; }
                if (double(R.x[0].p()[size_t(pl) * size_t(H * W) + size_t(q)]) != R.f.y[size_t(pl) * size_t(n) + size_t(j)]) { c.failf("MaxPooling:routing", "gradient of window %d went to a position that is not a maximum", j); return; }
                seen[size_t(j)]++;
            }
        }
        for (int j = 0; j < n; ++j) if (seen[size_t(j)] != 1) { c.failf("MaxPooling:routing", "gradient of plane %d window %d was routed %d times", pl, j, seen[size_t(j)]); return; }
        c.count("windows_decoded", n);
    }
}
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; Spec s; Shape in; GenOpt o; o.huge = 1000; o.cap4 = r.chance(1, 6) ? 24 : 9; gen_layer(r, MAXPOOL, s, in, o);
    if (idx % 80 == 5) { in[2] = r.range(15, 60); in[3] = r.range(15, 60); s.k = {r.range(1, 9), r.range(1, 9)}; s.pad = {r.range(0, s.k[0] - 1), r.range(0, s.k[1] - 1)}; in[0] = r.range(1, 2); in[1] = r.range(1, 2); }
    if (idx % 60 == 10) { in = {r.range(1, 2), r.range(1, 3), r.range(1, 20), r.range(1, 20)}; for (size_t a = 0; a < 2; ++a) { s.k[a] = r.range(1, 24); s.pad[a] = r.range(0, s.k[a] - 1); if (s.k[a] > in[2 + a] + 2 * s.pad[a]) s.pad[a] = s.k[a] - 1; } c.count("wide_padding"); }
    int mode = any_mode(r);
    c.desc("MaxPooling|%s in=%s mode=%s", s.str().c_str(), str(in).c_str(), mode_name(mode));
    Inst I(s, in);
    if (I.out != ref_shape(s, in)) { c.fail("MaxPooling:shape", "declared output shape " + str(I.out)); return; }
    if (s.pad[0] || s.pad[1]) c.count("padded_geometries");
    int calls = r.range(1, 4);
    for (int k = 0; k < calls; ++k) {
        Shape sh = in;
        if (k && r.chance(1, 2)) sh[0] = r.range(1, 9);
        if (k && r.chance(1, 2)) { sh[1] = dim(r, 6); for (int a = 0; a < 2; ++a) sh[size_t(2 + a)] = std::max(std::max(1, s.k[size_t(a)] - 2 * s.pad[size_t(a)]), r.range(1, 12)); }
        if (k) mode = any_mode(r);
        Run R; R.inputs(r, I, sh, mode);
        int special = r.range(0, 7);
        if (special == 0) for (size_t i = 0; i < R.x[0].n; ++i) R.x[0].p()[i] = -std::fabs(R.x[0].p()[i]) - 1e-3f;         // all negative
        if (special == 1) for (size_t i = 0; i < R.x[0].n; ++i) R.x[0].p()[i] = -std::fabs(R.x[0].p()[i]) * 1e30f - 1e25f;  // hugely negative
        if (special == 2) distinct_values(r, R.x[0].p(), R.x[0].n);
        if (special == 3) for (size_t i = 0; i < R.x[0].n; ++i) R.x[0].p()[i] *= 1e-38f;                                   // near the smallest normals
        R.refresh();
        if (r.chance(1, 10)) {                                                                                             // infinities and the largest finite numbers
            static const float ext[] = {-INFINITY, -INFINITY, -FLT_MAX, FLT_MAX, INFINITY}; int lim = r.of({2, 2, 3, 5}); bool most = r.chance(1, 2);
            for (size_t i = 0; i < R.x[0].n; ++i) if (most ? !r.chance(1, 6) : r.chance(1, 4)) R.x[0].p()[i] = ext[r.next() % size_t(lim)];
            R.x[0].snapshot(); Shape os = ref_shape(s, sh); R.y.make(r, os); I.forward(R.xt(), R.y.t); c.count("extreme_inputs");
            if (!R.y.canaries() || !R.x[0].unchanged()) { c.fail("MaxPooling:outside", "forward changed its input or outside memory"); return; }
            for (int q = 0, i = 0; q < sh[0] * sh[1]; ++q) for (int oy = 0; oy < os[2]; ++oy) for (int ox = 0; ox < os[3]; ++ox, ++i) {
                float e = -INFINITY;
                for (int ky = 0; ky < s.k[0]; ++ky) for (int kx = 0; kx < s.k[1]; ++kx) { int y = oy * s.st[0] - s.pad[0] + ky, x = ox * s.st[1] - s.pad[1] + kx; if (y >= 0 && y < sh[2] && x >= 0 && x < sh[3]) e = std::max(e, R.x[0].p()[(size_t(q) * size_t(sh[2]) + size_t(y)) * size_t(sh[3]) + size_t(x)]); }
                if (R.y.p()[i] != e) { c.failf("MaxPooling:extreme", "output %d is %.9g, the largest element of its window is %.9g", i, R.y.p()[i], e); return; }
            }
            continue;
        }
        if (!R.forward(c, I, sh, true, "MaxPooling")) return;
        for (size_t i = 0; i < R.y.n; ++i) if (double(R.y.p()[i]) != R.f.y[i]) { c.failf("MaxPooling:forward", "output %zu is %.9g, expected %.9g", i, R.y.p()[i], R.f.y[i]); return; }
        if (r.chance(1, 2)) decode(c, I, sh, R);
        if (R.f.margin > 0) {
            int reps = r.range(1, 2);
            for (int q = 0; q < reps; ++q) { R.grads(r, I, sh, num_mode(r), r.chance(1, 2)); if (!R.backward(c, I, sh, "MaxPooling")) return; }
        } else {                                     // ties: conservation per plane on integer gradients
            R.grads(r, I, sh, INTS, true); I.backward(R.xt(), R.y.t, R.gy.t, R.gxt());
            size_t P = size_t(sh[2]) * size_t(sh[3]), Q = R.y.n / (size_t(sh[0]) * size_t(sh[1]));
            for (size_t pl = 0; pl < size_t(sh[0]) * size_t(sh[1]); ++pl) { double a = 0, b = 0; for (size_t i = 0; i < P; ++i) a += R.gx[0].p()[pl * P + i]; for (size_t i = 0; i < Q; ++i) b += R.gy.p()[pl * Q + i]; if (a != b) { c.failf("MaxPooling:conserve", "plane %zu: gradient total %g, expected %g", pl, a, b); return; } }
            c.count("conservation_checks");
        }
    }
}
