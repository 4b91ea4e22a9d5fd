#include "common.hpp"
#include <deepworks/loss.hpp>
const char* PROP = "C17";
uint64_t ncases(const Ctx& c) { return c.thorough ? 640000 : 32000; }
static void gen(Rng& r, int b, int n, GT& p, GT& t, int pm, std::vector<int>& lab) {
    p.make(r, {b, n}); t.make(r, {b, 1}); lab.resize(size_t(b));
    int lm = r.range(0, 4), cst = r.range(0, n - 1);
    for (int i = 0; i < b; ++i) {
        int l = lm == 0 ? 0 : lm == 1 ? n - 1 : lm == 2 ? cst : lm == 3 ? i % n : r.range(0, n - 1);
        lab[size_t(i)] = l; t.p()[i] = float(l);
        double s = 0; std::vector<double> e(static_cast<size_t>(n));
        for (auto& x : e) { x = pm == 0 ? r.real(0.01, 1) : pm == 1 ? std::exp(r.real(-30, 0)) : pm == 2 ? std::exp(r.real(-80, 0)) : pm == 3 ? 1.0 : std::exp(r.real(-3, 3)); s += x; }
        for (int j = 0; j < n; ++j) {
            double v = e[size_t(j)] / s;
            if (pm == 5) v = j == l ? 1.0 : 1e-30;                             // perfectly confident
            if (pm == 6) v = j == l ? 1e-30 : 1.0;                             // confidently wrong
            if (pm == 7) v = r.chance(1, 2) || j == l ? r.real(1e-3, 1) : 0.0; // underflowed softmax elsewhere
            if (pm == 8) v = std::exp(r.real(-60, 20));                        // unnormalised
            float f = float(v); if (f < 1.2e-38f && (j == l || pm != 7)) f = 1.2e-38f;
            p.p()[size_t(i) * size_t(n) + size_t(j)] = f;
        }
    }
    p.snapshot(); t.snapshot();
}
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; dw::loss::CrossEntropyLoss L;
    if (idx == 1) {                                                            // positions beyond what a float can count
        int b = 4100, n = 4099; c.desc("large|%dx%d", b, n); Tensor p(Shape{b, n}), t(Shape{b, 1}), g(Shape{b, n}); double want = 0; std::vector<size_t> at;
        for (size_t i = 0; i < p.total(); ++i) p.data()[i] = float(1 + i % 1021) / 2048.f;
        for (int i = 0; i < b; ++i) { int l = r.chance(1, 2) ? (n - 1 - i % 7) : r.range(0, n - 1); t.data()[i] = float(l); at.push_back(size_t(i) * size_t(n) + size_t(l)); want -= std::log(double(p.data()[at.back()])) / b; }
        float got = L.forward(p, t); c.count("losses"); c.count("large"); if (!(std::fabs(got - want) <= 1e-4 * want)) { c.failf("loss:large", "loss %.9g, expected %.9g", got, want); return; }
        L.backward(p, t, g); c.count("gradients"); size_t k = 0;
        for (size_t i = 0; i < g.total(); ++i) { double w = 0; if (k < at.size() && at[k] == i) { w = -1.0 / b / p.data()[i]; ++k; } if (!(std::fabs(g.data()[i] - w) <= 4 * EPS * std::fabs(w))) { c.failf("gradient:large", "gradient element %zu is %g, expected %g", i, g.data()[i], w); return; } }
        return;
    }
    if (idx % 8 == 7) {                                                        // rejection, and the object still works
        int b = r.range(1, 6), n = r.range(1, 6); std::vector<int> lab; GT p, t, g; gen(r, b, n, p, t, 0, lab); g.make(r, {b, n}); std::fill_n(g.p(), g.n, 5.f); g.snapshot();
        int k = r.range(0, 8); bool bw = r.chance(1, 2);
        c.desc("reject|kind=%d b=%d n=%d %s", k, b, n, bw ? "backward" : "forward");
        Tensor P = p.t, T = t.t, G = g.t; GT h;
        auto mk = [&](Shape s) { h.make(r, s); std::fill_n(h.p(), h.n, 0.f); return h.t; };
        switch (k) {
            case 0: P = mk({b * n}); break;
            case 1: P = mk({b, n, 1}); break;
            case 2: T = mk({b}); break;
            case 3: T = mk({b + 1, 1}); break;
            case 4: T = mk({b, 2}); break;
            case 5: T = b > 1 ? mk({1, b}) : mk({1, 1, 1}); break;
            case 6: T = mk({b, 1, 1}); break;
            case 7: bw = true; G = mk(r.chance(1, 2) ? Shape{b, n + 1} : Shape{b * n}); break;
            default: bw = true; G = mk(b != n ? Shape{n, b} : Shape{b, n, 1}); break;
        }
        if (h.n) h.snapshot();
        bool th = bw ? throws([&] { L.backward(P, T, G); }) : throws([&] { L.forward(P, T); });
        c.count("rejections");
        if (!th) { c.fail("reject:accepted", "accepted predictions " + str(P.shape()) + " target " + str(T.shape()) + " gradient " + str(G.shape())); return; }
        if (!p.unchanged() || !t.unchanged() || !g.unchanged()) { c.fail("reject:modified", "a rejected call modified a tensor"); return; }
    }
    int calls = r.range(1, c.thorough ? 12 : 5), b = 1, n = 1; std::string d = "loss|";
    GT stale; bool have_stale = false;
    for (int k = 0; k < calls; ++k) {
        int how = r.range(0, 5);
        if (k == 0 && idx % 1000 == 17) { b = r.range(65500, 70000); n = r.range(1, 3); c.count("huge_batches"); }
        else if (k == 0 || how >= 3) { b = dim(r, r.chance(1, 10) ? 600 : 40); n = dim(r, r.chance(1, 10) ? 1200 : 40); }
        else if (how == 1) std::swap(b, n);
        else if (how == 2 && !(k && r.chance(1, 2))) b = r.range(1, 30);      // else the same shape again
        int pm = r.range(0, 8); GT p, t; std::vector<int> lab; gen(r, b, n, p, t, pm, lab);
        d += " " + str({b, n}) + "m" + std::to_string(pm); c.desc(d);
        if (k) c.count("object_reuses");
        int order = r.range(0, 3);
        auto fwd = [&]() -> bool {
            float got = L.forward(p.t, t.t); double e = 0, abs = 0;
            for (int i = 0; i < b; ++i) { double x = -std::log(double(p.p()[size_t(i) * size_t(n) + size_t(lab[size_t(i)])])); e += x; abs += std::fabs(x); }
            double tol = 8 * EPS * abs / b + EPS * abs / b * b / 2 + 1e-7; c.count("losses");
            if (!(std::fabs(got - e / b) <= tol)) { c.failf("loss:value", "loss %.9g, expected %.12g (batch %d, classes %d)", got, e / b, b, n); return false; }
            return true;
        };
        auto bwd = [&]() -> bool {
            GT g; int gm = r.range(0, 3);
            if (have_stale && stale.t.shape() == Shape{b, n} && r.chance(2, 3)) { g = std::move(stale); c.count("stale_gradients"); }       // the gradient of an earlier call
            else { g.make(r, {b, n}); if (gm == 1) fill(r, g.p(), g.n, WIDE); else if (gm == 2) { std::fill_n(g.p(), g.n, 0.f); g.p()[r.next() % g.n] = 3.f; } }
            have_stale = false;
            L.backward(p.t, t.t, g.t); c.count("gradients", b); 
            if (!g.canaries()) { c.fail("gradient:outside", "wrote outside the gradient"); return false; }
            for (int i = 0; i < b; ++i) for (int j = 0; j < n; ++j) {
                double x = g.p()[size_t(i) * size_t(n) + size_t(j)];
                if (j != lab[size_t(i)]) { if (x != 0) { c.failf("gradient:nonzero", "gradient at (%d,%d) is %g, label %d", i, j, x, lab[size_t(i)]); return false; } continue; }
                double e = -1.0 / (double(b) * p.p()[size_t(i) * size_t(n) + size_t(j)]);
                if (!(std::fabs(x - e) <= 4 * EPS * std::fabs(e) + 1e-38)) { c.failf("gradient:value", "gradient at (%d,%d) is %.9g, expected %.12g", i, j, x, e); return false; }
            }
            stale = std::move(g); have_stale = true;
            return true;
        };
        if (order == 0) { if (!bwd() || !fwd()) return; }
        else if (order == 1) { if (!fwd()) return; }
        else if (!fwd() || !bwd()) return;
        if (!p.unchanged() || !t.unchanged() || !p.canaries() || !t.canaries()) { c.fail("loss:modified-input", "predictions or labels were modified"); return; }
    }
}
