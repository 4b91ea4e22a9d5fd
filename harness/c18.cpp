#include "common.hpp"
#include <deepworks/metrics.hpp>
const char* PROP = "C18";
uint64_t ncases(const Ctx& c) { return c.thorough ? 480000 : 24000; }
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng;
    if (idx < (c.thorough ? 4u : 2u)) {                                        // more rows than a float can count one by one
        int b = (1 << 24) + r.range(1000, 2000000); bool hot = idx & 1;
        c.desc("many-rows|%d rows, %s", b, hot ? "one-hot" : "index");
        Tensor p(Shape{b, 1}), t(hot ? Shape{b, 1} : Shape{b}); std::fill_n(p.data(), b, 0.5f); std::fill_n(t.data(), b, hot ? 1.f : 0.f);
        size_t good = size_t(b); if (!hot) for (int i = 0; i < b; i += 97) { t.data()[i] = 1.f; --good; }
        float got = hot ? dw::metric::accuracyOneHot(p, t) : dw::metric::accuracy(p, t); c.count("accuracies"); c.count("many_rows");
        if (!(std::fabs(got - double(good) / b) <= 2 * EPS)) c.failf("accuracy:many-rows", "returned %.9g, expected %.9g", got, double(good) / b);
        return;
    }
    if (idx % 10 == 9) {
        int b = r.range(1, 6), n = r.range(1, 6), k = r.range(0, 6); GT p, t; Shape ps{b, n}, ts; bool hot = k >= 3;
        switch (k) {
            case 0: ts = {b + 1, 1}; break;
            case 1: ts = {b, 2}; break;
            case 2: ps = r.chance(1, 2) ? Shape{b * n} : Shape{b, n, 1}; ts = {b, 1}; break;
            case 3: ts = {b + 1, n}; break;
            case 4: ts = b != n ? Shape{n, b} : Shape{b, n + 1}; break;
            case 5: ts = {b * n}; break;
            default: ps = ts = r.chance(1, 2) ? Shape{b, n, 1} : Shape{b * n}; break;
        }
        p.make(r, ps); t.make(r, ts); fill(r, p.p(), p.n, SGN); std::fill_n(t.p(), t.n, 0.f);
        c.desc("reject|kind=%d pred=%s true=%s", k, str(ps).c_str(), str(ts).c_str());
        bool th = hot ? throws([&] { dw::metric::accuracyOneHot(p.t, t.t); }) : throws([&] { dw::metric::accuracy(p.t, t.t); });
        c.count("rejections");
        if (!th) c.fail("reject:accepted", "mismatching shapes accepted");
        return;
    }
    int b = dim(r, r.chance(1, 8) ? 5000 : 70), n = dim(r, r.chance(1, 10) ? 600 : 40);
    if (size_t(b) * size_t(n) > 200000) n = 7;
    int mode = r.range(0, 5), hit = r.range(0, 3), enc = r.range(1, 4);
    GT p, t, h; p.make(r, {b, n}); Shape ts = r.chance(1, 2) ? Shape{b, 1} : r.chance(1, 2) ? Shape{b} : Shape{1, b}; t.make(r, ts); h.make(r, {b, n}); std::fill_n(h.p(), h.n, 0.f);
    if (enc > 1) c.count("encoded_labels");
    int amode = r.range(0, 3); size_t good = 0;
    for (int i = 0; i < b; ++i) {
        float* row = p.p() + size_t(i) * size_t(n);
        for (int j = 0; j < n; ++j) {
            double v = mode == 0 ? r.unit() : mode == 1 ? -r.real(1, 100) : mode == 2 ? r.real(-1, 1) : mode == 3 ? -std::pow(10, r.real(0, 30)) : mode == 4 ? std::pow(10, r.real(-30, 30)) : r.range(-5, 5);
            row[j] = float(v);
        }
        int a = amode == 0 ? 0 : amode == 1 ? n - 1 : r.range(0, n - 1);
        if (amode != 3) { float mx = *std::max_element(row, row + n); row[a] = std::nextafter(mx, 3e38f); }        // arg-max placed, by one ulp
        float mx = *std::max_element(row, row + n); int cnt = 0; for (int j = 0; j < n; ++j) if (row[j] == mx) { ++cnt; a = j; }
        if (cnt > 1) row[a] = std::nextafter(mx, 3e38f);
        int lab = hit == 0 ? a : hit == 1 ? (a + 1) % n : r.chance(1, 2) ? a : r.range(0, n - 1);
        good += lab == a; t.p()[i] = float(lab); 
        float* hr = h.p() + size_t(i) * size_t(n);            // one-hot, smoothed, scaled or noisy label rows: the label is the largest entry
        switch (enc) {
            case 1: hr[lab] = 1.f; break;
            case 2: { float e = float(r.real(0.01, 0.3)); for (int j = 0; j < n; ++j) hr[j] = e / float(n); hr[lab] += 1.f - e; break; }
            case 3: for (int j = 0; j < n; ++j) hr[j] = float(-r.real(1, 50)); hr[lab] = float(-r.real(0, 0.9)); break;
            default: for (int j = 0; j < n; ++j) hr[j] = float(r.real(0, 5)); hr[lab] = float(r.real(5.1, 9)); break;
        }
    }
    p.snapshot(); t.snapshot(); h.snapshot();
    c.desc("accuracy|b=%d n=%d mode=%d hit=%d arg=%d labels=%d", b, n, mode, hit, amode, enc);
    double want = double(good) / b;
    auto chk = [&](const char* what, float got) { c.count("accuracies"); if (!(std::fabs(got - want) <= EPS * 2) || !(got >= 0 && got <= 1)) { c.failf(what, "returned %.9g, expected %zu/%d = %.9g", got, good, b, want); return false; } return true; };
    if (!chk("accuracy:value", dw::metric::accuracy(p.t, t.t)) || !chk("onehot:value", dw::metric::accuracyOneHot(p.t, h.t))) return;
    if (!p.unchanged() || !t.unchanged() || !h.unchanged()) { c.fail("accuracy:modified", "inputs modified"); return; }
    std::vector<int> o(static_cast<size_t>(b)); std::iota(o.begin(), o.end(), 0); for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[r.next() % i]);
    GT p2, t2, h2; p2.make(r, {b, n}); t2.make(r, ts); h2.make(r, {b, n});
    for (int i = 0; i < b; ++i) { size_t s = size_t(o[size_t(i)]) * size_t(n), q = size_t(i) * size_t(n); std::copy_n(p.p() + s, n, p2.p() + q); std::copy_n(h.p() + s, n, h2.p() + q); t2.p()[i] = t.p()[o[size_t(i)]]; }
    c.count("permutations");
    if (!chk("accuracy:permuted", dw::metric::accuracy(p2.t, t2.t))) return;
    chk("onehot:permuted", dw::metric::accuracyOneHot(p2.t, h2.t));
}
