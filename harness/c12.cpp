#include "lcheck.hpp"
const char* PROP = "C12";
uint64_t ncases(const Ctx& c) { return c.thorough ? 144000 : 7200; }
// Chernoff: an outcome this far from n draws of probability p has a chance below e^-32
static bool far(double got, double n, double p) {
    double a = got / n, kl = (a > 0 ? a * std::log(a / p) : 0) + (a < 1 ? (1 - a) * std::log((1 - a) / (1 - p)) : 0);
    return n * kl > 32;
}
void run_case(Ctx& c, uint64_t) {
    Rng& r = c.rng; Spec s; s.t = DROPOUT; s.p = float(r.offl({0, 0.05, 0.1, 0.2, 0.25, 0.3, 0.5, 0.5, 0.6, 0.75, 0.8, 0.9, 0.95}));
    if (r.chance(1, 4)) s.p = float(r.real(0.02, 0.98));
    if (r.chance(1, 12)) s.p = float(r.offl({1e-6, 1e-4, 5e-4, 1e-3, 0.002, 0.005, 0.99, 0.995, 0.999}));
    Shape in; int rank = r.range(1, 4); in = rank == 1 ? Shape{dim(r, 2100)} : rank == 2 ? Shape{dim(r, 40), dim(r, 130)} : rank == 3 ? Shape{dim(r, 9), dim(r, 9), dim(r, 33)} : Shape{dim(r, 9), dim(r, 6), dim(r, 9), dim(r, 9)};
    if (r.chance(1, 200)) in = {r.range(32760, 140000)};
    size_t n = prod(in);
    c.desc("Dropout|p=%g in=%s", s.p, str(in).c_str());
    Inst I(s, in); double p = s.p, scale = 1 / (1 - p);
    size_t rounds = std::max<size_t>(4, std::min<size_t>(8000 / n + 1, 400)); if (c.thorough) rounds *= 2;
    double zeros = 0, total = 0; std::vector<double> pos(n, 0); size_t fw = 0; std::vector<char> prev, seq;
    bool train = true; double differ[2] = {}, cmp[2] = {};
    for (size_t k = 0; k < rounds; ++k) {
        if (r.chance(1, 8)) { train = !train; I.train(train); c.count("mode_switches"); }
        Run R; R.inputs(r, I, in, SGN);
        for (size_t i = 0; i < n; ++i) if (std::fabs(R.x[0].p()[i]) < 1e-3f) R.x[0].p()[i] = 0.5f;
        if (!train && r.chance(1, 2)) R.x[0].p()[r.next() % n] = r.chance(1, 2) ? -0.f : 1e-42f;
        R.refresh();
        I.forward(R.xt(), R.y.t);
        if (!R.y.canaries() || !R.x[0].unchanged()) { c.fail("Dropout:outside", "forward changed its input or outside memory"); return; }
        std::vector<char> keep(n, 1);
        if (!train) {
            for (size_t i = 0; i < n; ++i) if (bits(R.y.p()[i]) != bits(R.x[0].p()[i])) { c.failf("Dropout:eval", "evaluation output %zu is %.9g for input %.9g", i, R.y.p()[i], R.x[0].p()[i]); return; }
            c.count("eval_forwards");
        } else {
            for (size_t i = 0; i < n; ++i) {
                double y = R.y.p()[i], x = R.X[0][i];
                if (y == 0) keep[i] = 0;
                else if (!(std::fabs(y - x * scale) <= 8 * EPS * std::fabs(x * scale))) { c.failf("Dropout:scale", "output %zu is %.9g for input %.9g: neither 0 nor input/(1-p)=%.9g", i, y, x, x * scale); return; }
                pos[i] += !keep[i]; zeros += !keep[i];
            }
            total += double(n); ++fw;
            if (!prev.empty()) { int par = int(fw & 1); for (size_t i = 0; i < n; ++i) differ[par] += prev[i] != keep[i]; cmp[par] += double(n); }
            prev = keep; seq.insert(seq.end(), keep.begin(), keep.end());
            c.count("train_forwards");
        }
        if (r.chance(1, 2)) {
            int reps = r.range(1, 2); bool flip = r.chance(1, 6); if (flip) { I.train(!train); c.count("switched_before_backward"); }
            for (int q = 0; q < reps; ++q) {
                R.grads(r, I, in, SGN, r.chance(1, 2));
                for (size_t i = 0; i < n; ++i) if (R.gy.p()[i] == 0) R.gy.p()[i] = 0.25f;
                R.gy.snapshot(); R.G = R.gy.dbl();
                I.backward(R.xt(), R.y.t, R.gy.t, R.gxt());
                if (!R.gx[0].canaries() || !R.gy.unchanged()) { c.fail("Dropout:outside", "backward changed memory it must not"); return; }
                Vd e(n); for (size_t i = 0; i < n; ++i) e[i] = R.GX0[0][i] + (train ? (keep[i] ? R.G[i] * scale : 0) : R.G[i]);
                if (!check_close(c, train ? "Dropout:backward" : "Dropout:backward-eval", "input gradient", R.gx[0].p(), e, [&](size_t i) { return 8 * EPS * (std::fabs(R.G[i]) * (train ? scale : 1) + std::fabs(R.GX0[0][i])); })) return;
                c.count(train ? "train_backwards" : "eval_backwards");
            }
            if (flip) I.train(train);
        }
    }
    if (fw == 0) return;
    if (p > 0 && std::fabs(zeros - p * total) > 1e-6 * total + 1 && far(zeros, total, p)) { c.failf("Dropout:rate", "%g of %g elements zeroed, expected fraction %g", zeros, total, p); return; }
    if (p == 0 && zeros) { c.fail("Dropout:rate", "p=0 zeroed elements"); return; }
    if (p > 0) for (int par = 0; par < 2; ++par) if (cmp[par] >= 1000) {         // disjoint pairs of passes: independent
        double q = 2 * p * (1 - p);
        if (far(differ[par], cmp[par], q)) { c.failf("Dropout:fresh", "successive masks differ on %g of %g elements, expected fraction %g", differ[par], cmp[par], q); return; }
        c.count("freshness_tests");
    }
    if (p > 0.04 && p < 0.96 && seq.size() >= 2000) {
        for (int lag : {1, 2, 3, 4, 8, 16}) { double a = 0; size_t m = seq.size() - size_t(lag); for (size_t i = 0; i < m; ++i) a += (double(!seq[i]) - p) * (double(!seq[i + size_t(lag)]) - p); a /= p * (1 - p) * double(m); if (std::fabs(a) > 7.5 / std::sqrt(double(m))) { c.failf("Dropout:independent", "decisions %d apart are correlated (%.4f over %zu)", lag, a, m); return; } }
        c.count("independence_tests");
    }
    if (p > 0.05 && p < 0.95 && seq.size() >= 6000) {                         // no stretch of 1024 decisions occurs twice
        const size_t W = 1024; const uint64_t B = 0x9E3779B97F4A7C15ull | 1; uint64_t bw = 1, h = 0; for (size_t i = 0; i < W; ++i) bw *= B;
        std::vector<std::pair<uint64_t, uint32_t>> v; v.reserve(seq.size());
        for (size_t i = 0; i < seq.size(); ++i) { h = h * B + uint64_t(seq[i]) * 0xD6E8FEB86659FD93ull + 1; if (i >= W) h -= (uint64_t(seq[i - W]) * 0xD6E8FEB86659FD93ull + 1) * bw; if (i + 1 >= W) v.emplace_back(h, uint32_t(i + 1 - W)); }
        std::sort(v.begin(), v.end());
        for (size_t i = 1; i < v.size(); ++i) if (v[i].first == v[i - 1].first && std::equal(seq.begin() + v[i].second, seq.begin() + v[i].second + long(W), seq.begin() + v[i - 1].second)) { c.failf("Dropout:recurs", "the same %zu decisions were made at draw %u and at draw %u", W, v[i - 1].second, v[i].second); return; }
        c.count("recurrence_tests");
    }
    if (fw >= 40 && p > 0) for (size_t i = 0; i < n; ++i) if (far(pos[i], double(fw), p)) { c.failf("Dropout:position", "element %zu was zeroed %g times in %zu passes with p=%g", i, pos[i], fw, p); return; }
}
