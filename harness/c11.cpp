#include "lcheck.hpp"
const char* PROP = "C11";
uint64_t ncases(const Ctx& c) { return c.thorough ? 256000 : 12800; }
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; int t = idx % 2 ? BN2 : BN1; Spec s; Shape in; GenOpt o; o.huge = 600; o.cap4 = r.chance(1, 5) ? 12 : 6; o.cap2 = r.chance(1, 6) ? 200 : 40; bool lng = r.chance(1, 150); if (lng) { o.huge = 0; o.cap4 = 3; o.cap2 = 5; o.batch = 4; } gen_layer(r, t, s, in, o);
    if (idx % 150 < 2 && !lng) in[0] = dim(r, 260);
    std::string key = lt_name(t);
    c.desc("%s|%s in=%s", lt_name(t), s.str().c_str(), str(in).c_str());
    Inst I(s, in);
    if (r.chance(2, 3)) randomize(r, I, num_mode(r));
    if (r.chance(1, 3)) { Tensor m = I.buffer("running_mean"), v = I.buffer("running_var"); fill(r, m.data(), m.total(), SGN); fill(r, v.data(), v.total(), POS); }
    bool train = true; int steps = lng ? r.range(260, 1500) : r.range(2, c.thorough ? 40 : 12); if (lng) c.count("long_histories");
    for (int k = 0; k < steps; ++k) {
        if (r.chance(1, 3)) { train = !train; I.train(train); c.count("mode_switches"); }
        Shape sh = in;
        if (k && r.chance(1, 2)) sh[0] = dim(r, 20);
        if (k && t == BN2 && r.chance(1, 3)) { sh[2] = dim(r, 8); sh[3] = dim(r, 8); }
        if (train && bn_n(s, sh) < 2) { if (r.chance(2, 3)) sh[0] = 2; else c.count("single_samples"); }
        if (r.chance(1, 6)) randomize(r, I, num_mode(r));
        int mode = r.of({SGN, SGN, UNI, INTS, POS, NEG, SPARSE, CONSTV, MIXED});
        Run R; R.inputs(r, I, sh, mode);
        double off = r.offl({0, 0, 0, 1, -3, 10, 100});
        if (off != 0) { for (size_t i = 0; i < R.x[0].n; ++i) R.x[0].p()[i] += float(off); R.refresh(); }
        if (!R.forward(c, I, sh, train, key)) return;
        Tensor m = I.buffer("running_mean"), v = I.buffer("running_var");
        if (train) {
            if (!check_close(c, key + ":running-mean", "running mean", m.data(), R.f.ry_mean, [&](size_t i) { return R.f.tmean[i]; })) return;
            if (!check_close(c, key + ":running-var", "running var", v.data(), R.f.ry_var, [&](size_t i) { return R.f.tvar[i]; })) return;
            c.count("train_steps");
        } else {
            for (size_t i = 0; i < m.total(); ++i) if (double(m.data()[i]) != R.st.rmean[i] || double(v.data()[i]) != R.st.rvar[i]) { c.failf(key + ":eval-update", "evaluation changed the running statistics of feature %zu", i); return; }
            c.count("eval_steps");
        }
        // features never influence one another
        if (sh[1] > 1 && r.chance(1, 4)) {
            Inst J(s, in); for (auto& kv : I.info.impl().params) { Tensor d = J.info.impl().params.at(kv.first).data(); kv.second.data().copyTo(d); }
            J.train(train);
            for (auto& kv : I.info.impl().buffers) { Tensor d = J.info.impl().buffers.at(kv.first); for (size_t i = 0; i < d.total(); ++i) d.data()[i] = float(kv.first == "running_mean" ? R.st.rmean[i] : R.st.rvar[i]); }
            Run Q; Q.inputs(r, J, sh, SGN); std::copy_n(R.x[0].p(), R.x[0].n, Q.x[0].p());
            int F = sh[1], f = r.range(0, F - 1); int M = bn_n(s, sh);
            for (int i = 0; i < M; ++i) Q.x[0].p()[bn_idx(s, sh, i, f)] += float(r.real(1, 50));
            Q.refresh(); if (!Q.forward(c, J, sh, train, key)) return;
            for (int g = 0; g < F; ++g) if (g != f) for (int i = 0; i < M; ++i) { size_t q = bn_idx(s, sh, i, g); if (!(std::fabs(double(Q.y.p()[q]) - R.f.y[q]) <= R.f.tol[q])) { c.failf(key + ":crosstalk", "changing feature %d changed feature %d", f, g); return; } }
            c.count("independence_probes");
        }
        if (train && r.chance(1, 3)) {               // backward in between must not disturb the statistics
            std::vector<uint32_t> a = bitsof(m), b = bitsof(v);
            R.grads(r, I, sh, SGN, false); I.backward(R.xt(), R.y.t, R.gy.t, R.gxt());
            if (!samebits(m, a) || !samebits(v, b)) { c.fail(key + ":backward-update", "backward changed the running statistics"); return; }
        }
    }
}
