#include "loader.hpp"
const char* PROP = "C23";
uint64_t ncases(const Ctx& c) { return c.thorough ? 6000 : 900; }
// Chernoff: an outcome this far from n draws of probability p has a chance below e^-32
static bool far(double got, double n, double p) {
    double a = got / n, kl = (a > 0 ? a * std::log(a / p) : 0) + (a < 1 ? (1 - a) * std::log((1 - a) / (1 - p)) : 0);
    return n * kl > 32;
}
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng;
    bool huge = idx % 12 == 7; int n = huge ? (r.chance(1, 6) ? r.range(32700, r.chance(1, 2) ? 90000 : 300000) : r.range(500, 20000)) : r.chance(1, 6) ? r.range(1, 3) : r.range(2, idx % 5 == 0 ? 200 : 30);
    int b = huge ? r.range(1, r.chance(1, 4) ? n / 4 : 70) : r.chance(1, 6) ? n : r.chance(1, 8) ? n + 1 : r.range(1, n);
    auto ds = std::make_shared<LogDataset>(size_t(n), sample_shape(r, 3), r.chance(2, 3) ? Shape{1} : sample_shape(r, 3));
    ds->salt = uint32_t(r.next());
    int per = n / b, want = huge ? 20 + 20000 / b : n <= 30 ? (c.thorough ? 6000 : 1200) : 400;
    c.desc("shuffled|n=%d b=%d x=%s y=%s", n, b, str(ds->xs).c_str(), str(ds->ys).c_str());
    dw::DataLoader l1(ds, b, true), l2(ds, b); dw::DataLoader* L = r.chance(1, 2) ? &l1 : &l2;           // shuffling is the default
    Tensor X, y; GT gX, gY; bool guarded = r.chance(1, 2);
    if (guarded) { gX.make(r, with_batch(b, ds->xs)); gY.make(r, with_batch(b, ds->ys)); X = gX.t; y = gY.t; }
    std::vector<long> cnt(static_cast<size_t>(n)); std::vector<long> pair(n <= 30 ? size_t(n) * size_t(n) : 0);
    long pulls = 0; std::vector<int> prev; long same = 0, adj = 0;
    int pos = 0, ended = 0; long limit = want + want / std::max(per, 1) + 3L * (per + 1);
    for (long it = 0; it < limit && (pulls < want || (ended < 2 && !huge)); ++it) {
        ds->log.clear(); ds->problem.clear();
        if (!X.empty()) std::fill_n(X.data(), X.total(), -7.f);
        bool ok = L->pull(X, y);
        if (!ds->problem.empty()) { c.fail("pull:access", ds->problem); return; }
        if (ok != (pos < per)) { c.failf("pull:epoch", "pull %d of an epoch of %d batches returned %d", pos, per, int(ok)); return; }
        if (!ok) { pos = 0; ++ended; c.count("epochs_ended"); if (!ds->log.empty()) { c.fail("pull:access-at-end", "samples accessed by the pull that ends the epoch"); return; } if (per == 0 && ended > 3) break; continue; }
        ++pos; ++pulls; c.count("pulls");
        if (X.shape() != with_batch(b, ds->xs) || y.shape() != with_batch(b, ds->ys)) { c.fail("pull:shape", "batch has shape " + str(X.shape())); return; }
        // which sample is in each row?
        std::vector<int> got; std::set<int> uniq;
        std::vector<int> cand(ds->log); std::sort(cand.begin(), cand.end()); cand.erase(std::unique(cand.begin(), cand.end()), cand.end());
        for (int k = 0; k < b; ++k) {
            int f = -1;
            if (size_t(k) < ds->log.size() && holds(*ds, X, y, k, ds->log[size_t(k)])) f = ds->log[size_t(k)];
            else for (int i : cand) if (holds(*ds, X, y, k, i)) { f = i; break; }
            if (f < 0) { c.failf("pull:sample", "row %d of a batch is no sample of the data set with its own label", k); return; }
            got.push_back(f);
            if (!uniq.insert(f).second) { c.failf("pull:duplicate", "sample %d occurs twice in one batch of %d out of %d", f, b, n); return; }
        }
        if (guarded && (!gX.canaries() || !gY.canaries())) { c.fail("pull:outside", "wrote outside the batch tensors"); return; }
        c.count("samples_checked", b);
        for (int i : got) cnt[size_t(i)]++;
        if (!pair.empty()) for (int i : got) for (int j : got) if (i < j) pair[size_t(i) * size_t(n) + size_t(j)]++;
        std::vector<int> s = got; std::sort(s.begin(), s.end()); if (!prev.empty()) { ++adj; same += s == prev; } prev = s;
    }
    if (per == 0) return;
    if (ended < 1 && !huge) { c.fail("pull:no-end", "no epoch ended"); return; }
    double p = double(b) / n, T = double(pulls);
    if (n >= 64 && pulls) {                                                      // sixteen stretches of the data set are drawn equally often
        for (int k = 0; k < 16; ++k) {
            int f = int(long(n) * k / 16), l = int(long(n) * (k + 1) / 16); long got = 0; for (int i = f; i < l; ++i) got += cnt[size_t(i)];
            double q = double(l - f) / n, m = T * b * q, sd = std::sqrt(m * (1 - q) * std::max(0.0, double(n - b) / (n - 1)));
            if (far(double(got), T * b, q)) { c.failf("shuffle:stretch", "samples %d to %d of %d drawn %ld times, expected %.0f +- %.0f", f, l - 1, n, got, m, sd); return; }
        }
        c.count("stretch_tests");
    }
    if (b < n && pulls >= want) {
        // exact expectation of a uniform draw
        double sd = std::sqrt(T * p * (1 - p));
        for (int i = 0; i < n; ++i) if (far(double(cnt[size_t(i)]), T, p)) { c.failf("shuffle:biased", "sample %d of %d drawn %ld times in %ld pulls of %d, expected %.0f +- %.0f", i, n, cnt[size_t(i)], pulls, b, T * p, sd); return; }
        c.count("sample_frequencies", n);
        if (!pair.empty() && b >= 2) {
            double q = double(b) * (b - 1) / (double(n) * (n - 1));
            for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (far(double(pair[size_t(i) * size_t(n) + size_t(j)]), T, q)) { c.failf("shuffle:pairs", "samples %d and %d of %d drawn together %ld times in %ld pulls of %d, expected %.1f", i, j, n, pair[size_t(i) * size_t(n) + size_t(j)], pulls, b, T * q); return; }
            c.count("pair_frequencies", n * (n - 1) / 2);
        }
        double sets = 1; for (int k = 0; k < b; ++k) sets *= double(n - k) / double(k + 1);
        double e = double(adj) / sets; if (double(same) > e && adj && far(double(same), double(adj), 1 / sets)) { c.failf("shuffle:repeats", "%ld of %ld successive batches contain the same samples (expected %.1f)", same, adj, e); return; }
    }
}
