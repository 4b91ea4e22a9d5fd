#include "net.hpp"
#include "optref.hpp"
#include "loader.hpp"
#include <deepworks/loss.hpp>
#include <deepworks/metrics.hpp>
#include <deepworks/serialization.hpp>
const char* PROP = "C34";
uint64_t ncases(const Ctx& c) { return c.thorough ? 160000 : 8000; }
// The network, its loss and its optimizer in double precision.  noise > 0 adds the rounding errors the real
// code may make (random within the derived bounds) and so measures how errors propagate along the trajectory.
struct RefTrain {
    const Net& n; std::vector<RefState> st; OptRef opt; std::vector<Vd> val; std::vector<RefF> f; std::vector<std::map<std::string, Vd>> gp; double loss = 0, noise = 0; Rng r{1}; std::set<size_t> fixed;    // fixed: batch norms in evaluation mode
    explicit RefTrain(const Net& n_) : n(n_) {}
    void jiggle(Vd& v, const Vd& t) { if (noise > 0) for (size_t i = 0; i < v.size(); ++i) v[i] += noise * r.real(-1, 1) * t[i]; }
    void forward(const Vd& x, bool train) {
        val.assign(n.shape.size(), {}); f.clear(); val[size_t(n.ins[0])] = x;
        for (size_t k = 0; k < n.ops.size(); ++k) {
            auto& o = n.ops[k]; std::vector<Vd> X; for (int i : o.in) X.push_back(val[size_t(i)]);
            const bool t = train && !fixed.count(k);
            f.push_back(ref_forward(o.s, n.shape[size_t(o.in[0])], X, st[k], t)); auto& F = f.back(); jiggle(F.y, F.tol);
            if (t && is_bn(o.s)) { jiggle(F.ry_mean, F.tmean); jiggle(F.ry_var, F.tvar); st[k].rmean = F.ry_mean; st[k].rvar = F.ry_var; }
            val[size_t(o.out)] = F.y;
        }
    }
    Vd criterion(const std::vector<int>& lab) {
        const Vd& p = val[size_t(n.outs[0])]; size_t B = lab.size(), C = p.size() / B; Vd g(p.size(), 0); loss = 0;
        for (size_t i = 0; i < B; ++i) { double q = p[i * C + size_t(lab[i])]; loss -= std::log(q) / double(B); g[i * C + size_t(lab[i])] = -1 / q / double(B); if (noise > 0) g[i * C + size_t(lab[i])] *= 1 + 4 * EPS * noise * r.real(-1, 1); }
        return g;
    }
    void backward(const Vd& g) {
        std::vector<Vd> G(n.shape.size()); for (size_t i = 0; i < G.size(); ++i) G[i].assign(prod(n.shape[i]), 0); G[size_t(n.outs[0])] = g; gp.assign(n.ops.size(), {});
        for (size_t k = n.ops.size(); k-- > 0;) {
            auto& o = n.ops[k]; std::vector<Vd> X, Z; for (int i : o.in) { X.push_back(val[size_t(i)]); Z.push_back(Vd(val[size_t(i)].size(), 0)); }
            RefB b = ref_backward(o.s, n.shape[size_t(o.in[0])], X, st[k], f[k], G[size_t(o.out)], Z);
            for (size_t i = 0; i < o.in.size(); ++i) { jiggle(b.gx[i], b.tx[i]); for (size_t q = 0; q < b.gx[i].size(); ++q) G[size_t(o.in[i])][q] += b.gx[i][q]; }
            for (auto& kv : b.gp) { jiggle(kv.second, b.tp[kv.first]); gp[k][kv.first] = kv.second; }
        }
    }
    Vd* slot(size_t k, const std::string& s) { return s == "weight" ? &st[k].w : s == "bias" ? &st[k].b : s == "gamma" ? &st[k].gamma : s == "beta" ? &st[k].beta : s == "running_mean" ? &st[k].rmean : &st[k].rvar; }
    void step(double lr, const std::set<std::string>& frozen) {
        opt.begin();
        for (size_t k = 0; k < n.ops.size(); ++k) for (auto& kv : gp[k]) {
            std::string nm = n.ops[k].info.name() + "." + kv.first; if (frozen.count(nm)) continue; Vd nw, tol; Vd* w = slot(k, kv.first); opt.step(nm, lr, *w, kv.second, nw, tol); jiggle(nw, tol); *w = nw;
        }
    }
};
struct ClassData : dw::IDataset {
    size_t n; Shape xs; std::vector<std::vector<float>> x; std::vector<int> lab, log;
    ClassData(Rng& r, size_t n_, Shape s, int classes) : n(n_), xs(std::move(s)) { for (size_t i = 0; i < n; ++i) { int l = r.range(0, classes - 1); std::vector<float> v(prod(xs)); fill(r, v.data(), v.size(), SGN); for (size_t j = 0; j < v.size(); ++j) v[j] += float(0.3 * std::sin(double(l * 3 + int(j)))); x.push_back(v); lab.push_back(l); } }
    size_t size() override { return n; }
    OutShape shape() override { return {xs, Shape{1}}; }
    void pull(int i, Tensor& X, Tensor& y) override { log.push_back(i); std::copy(x.at(size_t(i)).begin(), x.at(size_t(i)).end(), X.data()); y.data()[0] = float(lab[size_t(i)]); }
};
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; NetOpt o; o.dropout = false; o.max_in = 1; o.extra_outs = false; o.batch = 6; o.hw = 6; o.max_ops = idx % 3 == 0 ? 3 : idx % 3 == 1 ? 7 : 12;
    Net n = gen_net(r, o); int classes = r.range(2, 6), acc = -1; int uniq = 100;
    for (int d : n.outs) { Spec s; s.t = LINEAR; s.units = classes; if (r.chance(1, 2)) s.name = "head" + std::to_string(uniq++); int h = n.add(s, {d}); if (acc >= 0) { Spec a; a.t = ADD; h = n.add(a, {acc, h}); } acc = h; }
    { Spec s; s.t = SOFTMAX; acc = n.add(s, {acc}); } n.outs = {acc};
    net_randomize(r, n); for (auto& q : n.ops) if (is_bn(q.s) && q.s.eps < 1e-3f) {}
    int kind = r.range(0, 2); float lr = float(r.offl({0.01, 0.05, 0.1, 0.3})); if (kind == ADAM_) lr *= 0.2f; float gamma = float(r.offl({0.5, 0.9})); std::array<float, 2> betas{0.9f, 0.999f}; float epsi = 1e-3f;
    int B = n.shape[size_t(n.ins[0])][0]; Shape xs(n.shape[size_t(n.ins[0])].begin() + 1, n.shape[size_t(n.ins[0])].end());
    auto data = std::make_shared<ClassData>(r, size_t(B * r.range(2, 4) + r.range(0, B - 1)), xs, classes); auto vdata = std::make_shared<ClassData>(r, size_t(B * r.range(1, 2) + r.range(0, B - 1)), xs, classes);
    int epochs = r.range(1, c.thorough ? 8 : 4); bool shuffle = r.chance(1, 2);
    c.desc("train|%s lr=%g epochs=%d n=%zu%s %s", opt_name(kind), lr, epochs, data->n, shuffle ? " shuffled" : "", n.str().c_str());
    auto m = std::make_unique<dw::Model>(n.model()); m->compile(); c.count("models"); c.maxi("layers", long(n.ops.size()));
    std::set<std::string> frozen; if (r.chance(1, 4)) for (auto& q : n.ops) for (auto& kv : q.info.params()) if (!is_bn(q.s) && r.chance(1, 3)) frozen.insert(q.info.name() + "." + kv.first);
    std::set<size_t> fixed; if (r.chance(1, 3)) for (size_t k = 0; k < n.ops.size(); ++k) if (is_bn(n.ops[k].s) && r.chance(1, 2)) { fixed.insert(k); for (auto& kv : n.ops[k].info.params()) frozen.insert(n.ops[k].info.name() + "." + kv.first); c.count("fixed_batch_norms"); }
    auto mode = [&](bool t) { m->train(t); if (t) for (auto& s : frozen) m->params().at(s).train(false); };
    std::unique_ptr<OptReal> opt(new OptReal(kind, m->params(), lr, gamma, betas, epsi, 0, false)); dw::loss::CrossEntropyLoss crit;
    std::vector<std::unique_ptr<RefTrain>> T; for (int k = 0; k < 3; ++k) { T.emplace_back(new RefTrain(n)); auto& t = *T.back(); for (auto& q : n.ops) { Inst I; I.s = q.s; I.info = q.info; t.st.push_back(state_of(I)); } t.opt.kind = kind; t.opt.gamma = gamma; t.opt.b1 = betas[0]; t.opt.b2 = betas[1]; t.opt.epsi = epsi; t.noise = k ? 1 : 0; t.fixed = fixed; t.r = Rng(r.next()); }
    dw::DataLoader tl(data, B, shuffle), vl(vdata, B, false); Tensor X, Y, P(n.shape[size_t(n.outs[0])]), G(P.shape()); if (r.chance(1, 2)) { X = Tensor(with_batch(B, xs)); Y = Tensor({B, 1}); }
    // noise of one quantity along the trajectories, with the safety factor
    auto spread = [&](const Vd& a, const Vd& b, const Vd& d) { double s = 0; for (size_t i = 0; i < a.size(); ++i) { s = std::max(s, std::max(std::fabs(a[i] - b[i]), std::fabs(a[i] - d[i]))); if (!std::isfinite(b[i] + d[i])) s = INFINITY; } return s; };
    auto scale = [&](const Vd& a) { double s = 0; for (double v : a) s = std::max(s, std::fabs(v)); return s; };
    auto same_state = [&](const char* when) {
        for (size_t k = 0; k < n.ops.size(); ++k) {
            std::vector<std::string> names; for (auto& kv : n.ops[k].info.params()) names.push_back(kv.first); for (auto& kv : n.ops[k].info.buffers()) names.push_back(kv.first); std::sort(names.begin(), names.end());
            for (auto& nm : names) { if (nm == "mask") continue; Tensor t = m->state().at(n.ops[k].info.name() + "." + nm); Vd &a = *T[0]->slot(k, nm), &b = *T[1]->slot(k, nm), &d = *T[2]->slot(k, nm);
                double tol = 25 * spread(a, b, d) + 1e-6 * scale(a) + 1e-9; c.count("state_entries");
                if (!check_close(c, std::string("train:") + when + "-" + (nm.compare(0, 7, "running") ? "parameter" : "statistics"), (n.ops[k].s.str() + " " + nm).c_str(), t.data(), a, [&](size_t) { return tol; })) return false; }
        }
        return true;
    };
    auto kink = [&] {                                                           // too close to a non-differentiable point to compare further
        for (size_t k = 0; k < n.ops.size(); ++k) { auto& op = n.ops[k]; if (T[0]->f[k].margin > 1e200) continue; double s = 0; for (int i : op.in) s = std::max(s, spread(T[0]->val[size_t(i)], T[1]->val[size_t(i)], T[2]->val[size_t(i)])); if (T[0]->f[k].margin < 25 * s + 1e-7) return true; }
        return false;
    };
    auto outputs = [&](const char* when) {
        const Vd &a = T[0]->val[size_t(n.outs[0])], &b = T[1]->val[size_t(n.outs[0])], &d = T[2]->val[size_t(n.outs[0])]; double tol = 25 * spread(a, b, d) + 1e-6;
        return check_close(c, std::string("train:") + when, "prediction", P.data(), a, [&](size_t) { return tol; });
    };
    auto batch_ok = [&](ClassData& d, const std::vector<int>& ids) {
        if (ids.size() != size_t(B)) { c.fail("train:batch", "a batch of another size"); return false; }
        for (int i = 0; i < B; ++i) { if (Y.data()[i] != float(d.lab[size_t(ids[size_t(i)])])) { c.fail("train:batch", "label of another sample"); return false; } if (memcmp(X.data() + size_t(i) * prod(xs), d.x[size_t(ids[size_t(i)])].data(), prod(xs) * 4)) { c.fail("train:batch", "a batch row is not its sample"); return false; } }
        return true;
    };
    auto evaluate = [&](ClassData& d, dw::DataLoader& l) {
        mode(false); std::map<std::string, std::vector<uint32_t>> before; for (auto& kv : m->state()) before[kv.first] = bitsof(kv.second);
        int batches = 0;
        for (;;) {
            d.log.clear(); if (!l.pull(X, Y)) break; ++batches; if (!batch_ok(d, d.log)) return false; m->forward(X, P); c.count("eval_forwards");
            std::vector<int> lab; for (int i = 0; i < B; ++i) lab.push_back(int(Y.data()[i])); auto keep = T[0]->st; for (auto& t : T) t->forward(dbl(X), false);
            if (!outputs("evaluation")) return false;
            // accuracy, where every prediction is clear
            const Vd& p = T[0]->val[size_t(n.outs[0])]; int hit = 0; bool clear = true; double tol = 25 * spread(p, T[1]->val[size_t(n.outs[0])], T[2]->val[size_t(n.outs[0])]) + 1e-6;
            for (int i = 0; i < B; ++i) { const double* q = &p[size_t(i * classes)]; int b = int(std::max_element(q, q + classes) - q); for (int j = 0; j < classes; ++j) if (j != b && q[b] - q[j] < 2 * tol) clear = false; hit += b == lab[size_t(i)]; }
            float got = dw::metric::accuracy(P, Y); if (clear) { c.count("accuracies"); if (std::fabs(got - double(hit) / B) > 1e-6) { c.failf("train:accuracy", "accuracy %g, expected %d/%d", got, hit, B); return false; } }
            if (r.chance(1, 3)) { float l2 = crit.forward(P, Y); T[0]->criterion(lab); (void)l2; c.count("eval_losses"); }
        }
        if (batches != int(d.n) / B) { c.failf("train:batch", "an epoch had %d batches of %d from %zu samples", batches, B, d.n); return false; }
        for (auto& kv : m->state()) if (!samebits(kv.second, before[kv.first])) { c.fail("train:evaluation-modifies", "evaluation modified " + kv.first); return false; }
        return true;
    };
    // Metrics and losses of other predictions with the same loss object, anywhere within a step.
    auto monitor = [&] {
        bool other = r.chance(3, 4); Tensor Q(other && r.chance(1, 4) ? Shape{B + 1, classes} : P.shape()), q(Shape{Q.shape()[0], 1}); for (size_t i = 0; i < Q.total(); ++i) Q.data()[i] = float(r.real(0.01, 1)); for (size_t i = 0; i < q.total(); ++i) q.data()[i] = float(r.range(0, classes - 1)); if (!other) { P.copyTo(Q); }
        if (r.chance(1, 2)) dw::metric::accuracy(P, Y); dw::metric::accuracy(Q, q); crit.forward(Q, q); if (r.chance(1, 3)) { Tensor D(Q.shape()); crit.backward(Q, q, D); } c.count("monitored_steps");
    };
    long steps = 0;
    for (int e = 0; e < epochs; ++e) {
        mode(true); int batches = 0;
        for (;;) {
            data->log.clear(); if (!tl.pull(X, Y)) break; ++batches; if (!batch_ok(*data, data->log)) return;
            std::vector<int> lab; for (int i = 0; i < B; ++i) lab.push_back(int(Y.data()[i])); Vd x = dbl(X);
            m->forward(X, P); float l = crit.forward(P, Y); std::fill_n(G.data(), G.total(), 7.f);
            if (r.chance(1, 4)) monitor(); crit.backward(P, Y, G); if (r.chance(1, 8)) monitor(); m->backward(X, P, G); if (r.chance(1, 8)) monitor(); opt->step();
            for (auto& t : T) t->forward(x, true);
            if (kink()) { c.count("stopped_at_kink"); c.maxi("steps", steps); return; }
            if (!outputs("prediction")) return;
            std::vector<Vd> g; for (auto& t : T) g.push_back(t->criterion(lab));
            double tol = 25 * std::max(std::fabs(T[0]->loss - T[1]->loss), std::fabs(T[0]->loss - T[2]->loss)) + 1e-5 * (1 + std::fabs(T[0]->loss)); bool far = false; for (auto& t : T) for (int i = 0; i < B; ++i) if (!(t->val[size_t(n.outs[0])][size_t(i * classes + lab[size_t(i)])] > 1e-25)) far = true; if (far || !std::isfinite(T[0]->loss)) { c.count("stopped_diverged"); return; }
            if (!(std::fabs(l - T[0]->loss) <= tol)) { c.failf("train:loss", "step %ld: loss %.9g, expected %.9g (tolerance %.2g)", steps, l, T[0]->loss, tol); return; }
            for (size_t k = 0; k < T.size(); ++k) { T[k]->backward(g[k]); T[k]->step(opt->lr(), frozen); }
            if (!same_state("step")) return;
            ++steps; c.count("train_steps"); c.count(std::string("steps_") + opt_name(kind));
            double worst = 0; for (size_t k = 0; k < n.ops.size(); ++k) for (auto& kv : T[0]->gp[k]) { Vd &a = *T[0]->slot(k, kv.first); worst = std::max(worst, spread(a, *T[1]->slot(k, kv.first), *T[2]->slot(k, kv.first)) / (scale(a) + 1e-3)); }
            if (!(worst < 2e-3)) { c.count("stopped_chaotic"); c.maxi("steps", steps); return; }
            if (r.chance(1, 10)) { if (!evaluate(*vdata, vl)) return; c.count("evaluations_mid_epoch"); mode(true); }
            if (r.chance(1, 12)) { lr *= 0.5f; opt->lr(lr); c.count("lr_changes"); }
        }
        if (batches != int(data->n) / B) { c.failf("train:batch", "an epoch had %d batches of %d from %zu samples", batches, B, data->n); return; }
        c.count("epochs"); if (r.chance(3, 4)) { if (!evaluate(*vdata, vl)) return; c.count("evaluations"); }
        if (kind == SGD_ && r.chance(1, 3)) {                                   // continue from a checkpoint
            std::string f = c.work + "/ck.bin"; auto m2 = std::make_unique<dw::Model>();
            dw::save(*m, f); *m2 = dw::load(f); m2->compile(); m = std::move(m2); opt.reset(new OptReal(kind, m->params(), lr, gamma, betas, epsi, 0, false)); c.count("checkpoints"); unlink(f.c_str());
        }
    }
    c.maxi("steps", steps); c.count("completed");
}
