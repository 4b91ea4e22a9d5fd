#include "lcheck.hpp"
const char* PROP = "C16";
uint64_t ncases(const Ctx& c) { return c.thorough ? 1040000 : 52000; }
struct Snap { std::map<std::string, std::vector<uint32_t>> v; std::map<std::string, bool> flag;
    static Snap of(Inst& I) { Snap s; for (auto& kv : I.info.impl().params) { s.v["p:" + kv.first] = bitsof(kv.second.data()); s.v["g:" + kv.first] = bitsof(kv.second.grad()); s.flag[kv.first] = kv.second.is_trainable(); } for (auto& kv : I.info.impl().buffers) s.v["b:" + kv.first] = bitsof(kv.second); return s; }
    // first changed entry among those whose prefix is in `which`
    std::string diff(Inst& I, const std::string& which, const std::set<std::string>& except = {}) const {
        Snap n = of(I); if (n.v.size() != v.size()) return "set of parameters";
        for (auto& kv : v) if (which.find(kv.first[0]) != std::string::npos && !except.count(kv.first) && n.v.at(kv.first) != kv.second) return kv.first;
        for (auto& kv : flag) if (n.flag.at(kv.first) != kv.second) return "trainable flag of " + kv.first;
        return "";
    }
};
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; int t = int(idx % NLT); Spec s; Shape in; GenOpt o; o.huge = 1500; o.cap4 = r.chance(1, 8) ? 14 : 7; o.cap2 = r.chance(1, 8) ? 200 : 40; o.batch = 7; gen_layer(r, t, s, in, o);
    std::string key = lt_name(t); int mode = r.of({SGN, INTS, SPARSE, MIXED, NEG, TIES});
    
    c.desc("%s|%s in=%s mode=%s", lt_name(t), s.str().c_str(), str(in).c_str(), mode_name(mode));
    Inst I(s, in); randomize(r, I, SGN); poison_grads(r, I);
    bool train = true;
    int rounds = r.range(1, 3);
    for (int k = 0; k < rounds; ++k) {
        if (r.chance(1, 3)) { train = !train; I.train(train); }
        Shape sh = in; if (k && t != DROPOUT && r.chance(1, 2)) sh[0] = r.range(1, 9);
        Run R; R.inputs(r, I, sh, mode);
        if (t == DROPOUT) for (size_t i = 0; i < R.x[0].n; ++i) if (R.x[0].p()[i] == 0) R.x[0].p()[i] = 1;
        R.refresh();
        auto check = [&](const char* what) -> bool {
            for (auto& g : R.x) if (!g.unchanged() || !g.canaries()) { c.fail(key + ":" + what, std::string(what) + " changed an input tensor or memory around it"); return false; }
            if (!R.y.canaries()) { c.fail(key + ":" + what, std::string(what) + " wrote outside the output tensor"); return false; }
            c.count("footprint_checks"); return true;
        };
        // forward, over two different previous contents of the output
        std::vector<float> first;
        for (int rep = 0; rep < 2; ++rep) {
            Snap before = Snap::of(I);
            if (rep == 0) R.y.poison(); else for (size_t i = 0; i < R.y.n; ++i) R.y.p()[i] = float(r.real(-1e3, 1e3));
            std::vector<float> pre = flt(R.y.t);
            I.forward(R.xt(), R.y.t);
            if (!check("forward")) return;
            std::set<std::string> ex; if (is_bn(s) && train) ex = {"b:running_mean", "b:running_var"}; if (t == DROPOUT && train) ex = {"p:mask"};
            std::string d = before.diff(I, "pgb", ex); if (!d.empty()) { c.fail(key + ":forward", "forward changed " + d); return; }
            for (size_t i = 0; i < R.y.n; ++i) if (!std::isfinite(R.y.p()[i])) { c.failf(key + ":unwritten", "output %zu of %zu was not overwritten (or is not finite: %g)", i, R.y.n, R.y.p()[i]); return; }
            if (rep == 1 && !(t == DROPOUT && train)) for (size_t i = 0; i < R.y.n; ++i) if (!(std::fabs(R.y.p()[i] - first[i]) <= 1e-4f * (1 + std::fabs(first[i])))) { c.failf(key + ":stale", "output %zu depends on what the output held before: %g then %g", i, first[i], R.y.p()[i]); return; }
            if (rep == 1 && t == DROPOUT && train) for (size_t i = 0; i < R.y.n; ++i) { double y = R.y.p()[i], e = R.X[0][i] / (1 - double(s.p)); if (y != 0 && std::fabs(y - e) > 1e-5 * std::fabs(e)) { c.failf(key + ":stale", "output %zu depends on what the output held before", i); return; } }
            first = flt(R.y.t);
        }
        R.grads(r, I, sh, r.of({SGN, INTS, MIXED}), r.chance(1, 2));
        R.y.snapshot(); R.gy.snapshot(); Snap before = Snap::of(I);
        std::vector<Tensor> xs = R.xt(), gs = R.gxt(), ys{R.y.t}, gys{R.gy.t};
        auto after = [&](const char* what, const char* pre) -> bool {
            if (!check(what)) return false;
            if (!R.y.unchanged()) { c.fail(key + ":" + what, std::string(what) + " changed the output tensor"); return false; }
            if (!R.gy.unchanged() || !R.gy.canaries()) { c.fail(key + ":" + what, std::string(what) + " changed the output gradient"); return false; }
            for (auto& g : R.gx) if (!g.canaries()) { c.fail(key + ":" + what, std::string(what) + " wrote outside the input gradient"); return false; }
            std::string d = before.diff(I, pre); if (!d.empty()) { c.fail(key + ":" + what, std::string(what) + " changed " + d); return false; }
            return true;
        };
        I.l->updateGradients(xs, gys);
        if (!after("updateGradients", "pb")) return;
        for (auto& g : R.gx) for (size_t i = 0; i < g.n; ++i) if (double(g.p()[i]) != R.GX0[size_t(&g - &R.gx[0])][i]) { c.fail(key + ":updateGradients", "updateGradients changed an input gradient"); return; }
        before = Snap::of(I);
        I.l->backward(xs, ys, gys, gs);
        if (!after("backward", "pbg")) return;
        c.count("passes");
    }
}
