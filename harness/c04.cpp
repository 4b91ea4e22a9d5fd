#include "lcheck.hpp"
const char* PROP = "C04";
uint64_t ncases(const Ctx& c) { return c.thorough ? 1920000 : 96000; }
static const int T[] = {RELU, LEAKY, ELU_, SIGMOID, ADD};
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; int t = T[idx % 5];
    Spec s; Shape in; GenOpt o; o.cap2 = r.chance(1, 30) ? 2049 : 260; gen_layer(r, t, s, in, o);
    if (t == LEAKY || t == ELU_) s.alpha = float(r.offl({0.0, 0.01, 0.2, 0.5, 1.0, 1.7, 3.0, -0.5}));
    if (r.chance(1, 4)) in = {dim(r, c.thorough ? 5000 : 1100)};
    if (r.chance(1, 300)) in = {r.range(200000, 300000)};
    c.desc("%s|%s in=%s", lt_name(t), s.str().c_str(), str(in).c_str());
    Inst I(s, in);
    std::string key = lt_name(t);
    int calls = r.range(1, 4);
    for (int k = 0; k < calls; ++k) {
        Shape sh = in; if (k && in.size() >= 1 && r.chance(1, 2)) sh[0] = dim(r, 20);
        int mode = any_mode(r);
        Run R; R.inputs(r, I, sh, mode);
        if (r.chance(1, 2)) {                        // sprinkle extremes
            for (auto& g : R.x) for (int q = 0; q < 6; ++q) {
                static const float sp[] = {0.f, -0.f, 1e-30f, -1e-30f, 1e-32f, -1e-32f, 1e-36f, -1e-36f, 1.2e-38f, -1.2e-38f, 1e-42f, -1e-42f, 1.4e-45f, -1.4e-45f, 1e-20f, -1e-20f, 1e-10f, -1e-10f, 6e-8f, -6e-8f, 88.f, -88.f, 89.f, -89.f, 104.f, -104.f, 17.f, -17.f, 37.f, -37.f, 1e-7f, -1e-7f, 20.f, -20.f, 80.f, -80.f, 87.f, -87.f, 100.f, -100.f, 1e4f, -1e4f, 1e30f, -1e30f, 1.f, -1.f};
                g.p()[r.next() % g.n] = sp[r.next() % (sizeof sp / sizeof *sp)];
            }
            R.refresh();
        }
        if (r.chance(1, 8)) { double sc = r.offl({1e-10, 1e-20, 1e-31, 1e-36, 1e-38, 1e-42}); for (auto& g : R.x) for (size_t i = 0; i < g.n; ++i) g.p()[i] = float(g.p()[i] * sc); R.refresh(); c.count("tiny_tensors"); }
        if (t == LEAKY) for (auto& g : R.x) for (size_t i = 0; i < g.n; ++i) if (std::fabs(g.p()[i]) > 1e30f) g.p()[i] = 1e30f;
        R.refresh();
        if (!R.forward(c, I, sh, true, key)) return;
        // a position's result depends on no other position: change one element, all others keep their bits
        if (R.y.n > 1 && r.chance(1, 3)) {
            auto b0 = bitsof(R.y.t); size_t at = r.next() % R.y.n;
            R.x[0].p()[at] = float(r.real(-3, 3)); R.refresh(); R.y.poison();
            I.forward(R.xt(), R.y.t);
            for (size_t i = 0; i < R.y.n; ++i) if (i != at && bits(R.y.p()[i]) != b0[i]) { c.failf(key + ":crosstalk", "changing input %zu changed output %zu", at, i); return; }
            c.count("independence_probes");
        }
        if (R.y.n > 1 && r.chance(1, 3)) {           // the same element computed alone
            size_t at = r.next() % R.y.n; RefF f = ref_forward(s, sh, R.X, R.st, true);
            GT a[2]; std::vector<Tensor> xs; for (size_t q = 0; q < R.x.size(); ++q) { a[q].make(r, {1}); a[q].p()[0] = R.x[q].p()[at]; xs.push_back(a[q].t); }
            GT y; y.make(r, {1}); I.forward(xs, y.t);
            if (!(std::fabs(double(y.p()[0]) - f.y[at]) <= f.tol[at])) { c.failf(key + ":alone", "element %zu alone gives %.9g, expected %.9g", at, y.p()[0], f.y[at]); return; }
        }
    }
}
