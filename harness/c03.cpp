#include "common.hpp"
const char* PROP = "C03";
uint64_t ncases(const Ctx& c) { return c.thorough ? 240000 : 12000; }
static Shape gshape(Rng& r) {
    int k = r.of({1, 2, 2, 2, 3, 4, 4, 5}); Shape s; long tot = 1;
    for (int i = 0; i < k; ++i) { int d = r.chance(1, 6) ? 1 : dim(r, k <= 2 ? 600 : 16); if (tot * d > 60000) d = 2; tot *= d; s.push_back(d); }
    if (r.chance(1, 150)) { s = r.chance(1, 3) ? Shape{r.range(65530, 200000)} : Shape{r.range(2, 400), r.range(400, 600)}; if (r.chance(1, 2)) s.insert(s.begin() + r.range(0, int(s.size())), 1); }
    return s;
}
// Kolmogorov-Smirnov against U[lo,hi] and serial correlation
static void uniformity(Ctx& c, const std::string& key, std::vector<float> v, double lo, double hi) {
    size_t n = v.size(); if (n < 200) return;
    double mean = (lo + hi) / 2, var = (hi - lo) * (hi - lo) / 12;
    for (int lag : {1, 2, 3, 4, 7, 8, 16, 64}) {
        if (size_t(lag) * 4 > n) break;
        double s = 0; for (size_t i = 0; i + size_t(lag) < n; ++i) s += (v[i] - mean) * (v[i + size_t(lag)] - mean);
        double rr = s / (var * double(n - size_t(lag)));
        if (std::fabs(rr) > 7 / std::sqrt(double(n - size_t(lag)))) { c.failf(key + ":correlated", "elements %d apart are correlated: %.4f over %zu draws", lag, rr, n); return; }
    }
    std::sort(v.begin(), v.end());
    double D = 0; for (size_t i = 0; i < n; ++i) { double F = (v[i] - lo) / (hi - lo); D = std::max(D, std::max(std::fabs(F - double(i) / n), std::fabs(F - double(i + 1) / n))); }
    if (D * std::sqrt(double(n)) > 3.2) { c.failf(key + ":uneven", "draws not uniform on [%g,%g]: KS statistic %.3f over %zu draws (min %g max %g)", lo, hi, D * std::sqrt(double(n)), n, v.front(), v.back()); return; }
    c.count("draws_tested", long(n)); c.count("distribution_tests");
}
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng;
    int kind = int(idx % 4);
    Shape s = gshape(r); size_t n = prod(s);
    bool factory = r.chance(1, 3);
    if (idx % 61 == 5) { s[r.next() % s.size()] = 0; n = 0; }
    static const char* kn[] = {"zeros", "constant", "uniform", "xavier"};
    c.desc("%s|%s %s", kn[kind], str(s).c_str(), factory ? "factory" : "in-place");
    GT g; g.make(r, s);
    auto after = [&](const std::string& k) -> bool {
        if (factory) return true;
        if (!g.canaries()) { c.fail(k + ":outside", "memory outside the tensor was written"); return false; }
        if (g.t.shape() != s) { c.fail(k + ":shape", "shape changed"); return false; }
        return true;
    };
    if (kind <= 1) {
        static const uint32_t sp[] = {0, 0x80000000u, 0x3f800000u, 0x7f800000u, 0xff800000u, 1u, 0x7f7fffffu, 0x33800000u, 0x7fc00000u};
        float val = kind == 0 ? 0.f : (r.chance(1, 3) ? fbits(sp[r.next() % 9]) : float(r.real(-10, 10)));
        Tensor t = g.t;
        if (factory) { t = kind == 0 ? Tensor::zeros(s) : Tensor::constant(s, val); if (t.shape() != s) { c.fail("factory:shape", "wrong shape"); return; } }
        else if (kind == 0) dw::initializer::zeros(g.t); else dw::initializer::constant(g.t, val);
        for (size_t i = 0; i < n; ++i) if (bits(t.data()[i]) != bits(val) && !(std::isnan(val) && std::isnan(t.data()[i]))) { c.failf(std::string(kn[kind]) + ":value", "element %zu of %zu is %g, expected %g", i, n, t.data()[i], val); return; }
        c.count("exact_elements", long(n)); after(kn[kind]); return;
    }
    double lo, hi; float fl = 0, fh = 1; bool deflt = false;
    if (kind == 2) {
        deflt = r.chance(1, 5);
        if (!deflt) { fl = float(r.real(-20, 20)); fh = fl + float(r.offl({0.001, 0.5, 1, 3, 100})); if (r.chance(1, 4)) { fl = -fh; if (fl > fh) std::swap(fl, fh); } if (r.chance(1, 5)) fl = 0, fh = float(r.real(0.1, 9)); }
        if (fl == fh) fh = fl + 1;
        lo = fl; hi = fh;
    } else { double m = s[0], k = n && m > 0 ? double(n) / m : 0; if (n) hi = std::sqrt(6.0 / (m + k)); else hi = 1; lo = -hi; }
    std::vector<float> all, prev; size_t fills = std::max<size_t>(2, std::min<size_t>(n ? 6000 / n : 2, 400));
    std::vector<double> possum(n, 0);
    size_t rounds = 0;
    for (size_t f = 0; f < fills; ++f, ++rounds) {
        Tensor t = g.t;
        if (!factory) g.poison();
        if (kind == 2) { if (factory) t = deflt ? Tensor::uniform(s) : Tensor::uniform(s, fl, fh); else if (deflt) dw::initializer::uniform(g.t); else dw::initializer::uniform(g.t, fl, fh); }
        else { if (factory) t = Tensor::xavierUniform(s); else dw::initializer::xavierUniform(g.t); }
        if (t.shape() != s || t.total() != n) { c.fail("factory:shape", "wrong shape"); return; }
        double sl = 2e-6 * std::max(std::fabs(lo), std::fabs(hi));
        for (size_t i = 0; i < n; ++i) {
            double v = t.data()[i];
            if (!(v >= lo - sl && v <= hi + sl)) { c.failf(std::string(kn[kind]) + ":range", "element %zu of %zu is %.9g, outside [%g,%g]", i, n, v, lo, hi); return; }
            possum[i] += (v - (lo + hi) / 2) / (hi - lo);
        }
        std::vector<float> cur = flt(t);
        if (!prev.empty() && n >= 4 && prev == cur) { c.fail(std::string(kn[kind]) + ":repeat", "two successive fills are identical"); return; }
        // successive elements / blocks must not be copies
        if (n >= 64) { size_t eq = 0; for (size_t i = 1; i < n; ++i) eq += cur[i] == cur[i - 1]; if (double(eq) > 8 + 0.01 * double(n)) { c.failf(std::string(kn[kind]) + ":copies", "%zu of %zu neighbouring elements are equal", eq, n); return; }
            for (size_t b : {n / 2, n / 4, size_t(s.back())}) if (b >= 16 && 2 * b <= n && std::equal(cur.begin(), cur.begin() + long(b), cur.begin() + long(b))) { c.fail(std::string(kn[kind]) + ":copies", "one block of elements repeats another"); return; } }
        if (n >= 64) { size_t eq = 0; if (!prev.empty()) { for (size_t i = 0; i < n; ++i) eq += cur[i] == prev[i]; if (double(eq) > 8 + 0.01 * double(n)) { c.failf(std::string(kn[kind]) + ":repeat", "%zu of %zu elements repeat the previous fill", eq, n); return; } } }
        prev = cur; all.insert(all.end(), cur.begin(), cur.end());
        c.count("random_fills");
        if (!after(kn[kind])) return;
    }
    if (kind == 3 && n) {
        // Known finding: the bound in use is sqrt(6)/(m+k).  Draws that are uniform on exactly that
        // interval are reported under the finding's key; anything else is judged by the promised bound.
        double m = s[0], k = double(n) / m, hk = std::sqrt(6.0) / (m + k), mx = 0;
        for (float v : all) mx = std::max(mx, double(std::fabs(v)));
        if (mx <= hk * (1 + 2e-6)) { for (auto& p : possum) p *= hi / hk; hi = hk; lo = -hk; c.finding("xavier:bound-is-sqrt6-over-sum", "values are confined to sqrt(6)/(m+k)"); c.count("known_bound_cases"); }
    }
    if (n && rounds >= 30) for (size_t i = 0; i < n; ++i) if (std::fabs(possum[i]) / std::sqrt(double(rounds) / 12) > 7) { c.failf(std::string(kn[kind]) + ":position", "element %zu is biased: standardised mean %.2f over %zu fills", i, possum[i] / std::sqrt(double(rounds) / 12), rounds); return; }
    if (all.size() >= 64) {                                                     // no stretch of 16 draws occurs twice
        const size_t W = 16; const uint64_t B = 0x9E3779B97F4A7C15ull | 1; uint64_t bw = 1, h = 0; for (size_t i = 0; i < W; ++i) bw *= B;
        auto e = [&](size_t i) { return (uint64_t(bits(all[i])) + 1) * 0xD6E8FEB86659FD93ull; };
        std::vector<std::pair<uint64_t, uint32_t>> v; v.reserve(all.size());
        for (size_t i = 0; i < all.size(); ++i) { h = h * B + e(i); if (i >= W) h -= e(i - W) * bw; if (i + 1 >= W) v.emplace_back(h, uint32_t(i + 1 - W)); }
        std::sort(v.begin(), v.end());
        for (size_t i = 1; i < v.size(); ++i) if (v[i].first == v[i - 1].first && std::equal(all.begin() + v[i].second, all.begin() + v[i].second + long(W), all.begin() + v[i - 1].second)) { c.failf(std::string(kn[kind]) + ":recurs", "the same %zu values were drawn at draw %u and at draw %u", W, v[i - 1].second, v[i].second); return; }
        c.count("recurrence_tests");
    }
    if (n) uniformity(c, kn[kind], all, lo, hi);
}
