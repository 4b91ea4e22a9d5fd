#include "net.hpp"
const char* PROP = "C29";
uint64_t ncases(const Ctx& c) { return c.thorough ? 256000 : 12800; }
static std::vector<Tensor> tensors(const std::vector<std::vector<float>>& v, const Net& n, const std::vector<int>& ids) {
    std::vector<Tensor> t; for (size_t i = 0; i < ids.size(); ++i) { Tensor x(n.shape[size_t(ids[i])]); std::copy(v[i].begin(), v[i].end(), x.data()); t.push_back(x); } return t;
}
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; NetOpt o; if (idx % 4 == 0) o.max_ops = 4; if (idx % 400 == 12) { o.batch = 3; o.hw = 4; } if (idx % 16 == 5) { o.max_ops = 30; o.batch = 3; }
    const bool lng = idx % 400 == 9, explode = lng && r.chance(1, 2); Net n = lng ? long_net(r, r.range(100, 280), explode) : gen_net(r, o); net_randomize(r, n); if (lng) c.count("long_networks");
    c.desc("net|%s", n.str().c_str());
    dw::Model m = n.model(); m.compile(); c.count("models"); c.maxi("layers", long(n.ops.size()));
    if (n.outs.size() > 1) c.count("multi_output"); if (n.ins.size() > 1) c.count("multi_input");
    bool shared = false, dia = false; for (size_t i = 0; i < n.shape.size(); ++i) { int k = n.consumers(int(i)); if (k > 1) shared = true; if (k && n.producer[i] >= 0) for (int q : n.outs) if (q == int(i)) dia = true; }
    if (shared) c.count("shared_data"); if (dia) c.count("consumed_outputs");
    ByHand h(n); bool train = true; int calls = r.range(1, 5); if (idx % 400 == 12) { calls = r.range(260, 400); c.count("long_histories"); }
    auto fresh = [&](const std::vector<int>& ids) { std::vector<std::vector<float>> v; int mode = r.of({SGN, SGN, MIXED, SPARSE, UNI}); for (int i : ids) { std::vector<float> x(prod(n.shape[size_t(i)])); fill(r, x.data(), x.size(), mode); if (mode == MIXED) for (auto& q : x) q = std::max(-5.f, std::min(5.f, q)); v.push_back(x); } return v; };
    for (int k = 0; k < calls; ++k) {
        bool can_train = true; for (auto& op : n.ops) if (op.s.t == DROPOUT && op.s.p > 0) can_train = false;
        train = can_train && !r.chance(1, 4); m.train(train); h.train(train);
        if (r.chance(1, 8)) { m.compile(); c.count("recompiles"); }
        auto X = fresh(n.ins); std::vector<Tensor> x = tensors(X, n, n.ins), y, g;
        for (int i : n.outs) { Tensor t(n.shape[size_t(i)]); for (size_t q = 0; q < t.total(); ++q) t.data()[q] = fbits(0x7fc00000); y.push_back(t); }
        std::vector<std::vector<uint32_t>> xb; for (auto& t : x) xb.push_back(bitsof(t));
        if (n.ins.size() == 1 && n.outs.size() == 1 && r.chance(1, 2)) m.forward(x[0], y[0]); else m.forward(x, y);
        c.count("forward_calls_model");
        if (y.size() != n.outs.size()) { c.fail("model:outputs", "the number of outputs changed"); return; }
        for (size_t i = 0; i < x.size(); ++i) if (!samebits(x[i], xb[i])) { c.fail("model:input-modified", "forward modified an input"); return; }
        if (!h.forward(c, r, X, train)) return;
        bool exact = true;
        for (size_t i = 0; i < y.size(); ++i) if (!near(c, "model:forward", "output " + std::to_string(i), y[i].data(), h.val[size_t(n.outs[i])].data(), y[i].total(), 1e-4, &exact)) return;
        for (size_t q = 0; q < n.ops.size(); ++q) for (auto& kv : n.ops[q].info.buffers()) if (!near(c, "model:buffer", n.ops[q].s.str() + " " + kv.first, kv.second.data(), h.l[q].info.buffers().at(kv.first).data(), kv.second.total(), 1e-4)) return;
        if (!train || explode /* stacked normalisations overflow */ || r.chance(1, 5)) { if (train) c.count("abandoned_forwards"); continue; }
        auto G = fresh(n.outs); g = tensors(G, n, n.outs);
        for (auto& op : n.ops) for (auto& kv : op.info.impl().params) { Tensor t = kv.second.grad(); for (size_t q = 0; q < t.total(); ++q) t.data()[q] = float(r.real(-9, 9)); }
        std::vector<std::vector<uint32_t>> yb, gb; for (auto& t : y) yb.push_back(bitsof(t)); for (auto& t : g) gb.push_back(bitsof(t));
        int reps = r.chance(1, 6) ? 2 : 1;
        if (!h.backward(c, r, G)) return;
        bool kink = !exact && h.margin < 1e-3; if (kink) c.count("kinks_skipped");
        for (int rep = 0; rep < reps; ++rep) {
            if (n.ins.size() == 1 && n.outs.size() == 1 && r.chance(1, 2)) m.backward(x[0], y[0], g[0]); else m.backward(x, y, g);
            c.count("backward_calls_model");
            for (size_t i = 0; i < x.size(); ++i) if (!samebits(x[i], xb[i])) { c.fail("model:backward-input-modified", "backward modified input " + std::to_string(i)); return; }
            for (size_t i = 0; i < y.size(); ++i) { if (!samebits(y[i], yb[i])) { c.fail("model:backward-output-modified", "backward modified output " + std::to_string(i)); return; } if (!samebits(g[i], gb[i])) { c.fail("model:backward-grad-modified", "backward modified the gradient of output " + std::to_string(i)); return; } }
            if (!kink) for (size_t q = 0; q < n.ops.size(); ++q) for (auto& kv : n.ops[q].info.params()) if (kv.first != "mask") {
                Tensor a = kv.second.grad(), b = h.l[q].grad(kv.first.c_str()); c.count("model_param_grads");
                if (!near(c, std::string("model:param-grad-") + lt_name(n.ops[q].s.t), "op " + std::to_string(q) + " " + kv.first, a.data(), b.data(), a.total(), 1e-3, nullptr, 50 * h.noise[{q, kv.first}])) return;
            }
        }
        // train the parameters a little, in place, identically
        if (r.chance(1, 3)) { for (size_t q = 0; q < n.ops.size(); ++q) { std::vector<std::string> names; for (auto& kv : n.ops[q].info.params()) names.push_back(kv.first); std::sort(names.begin(), names.end()); for (auto& k2 : names) if (k2 != "mask") { Tensor t = n.ops[q].info.impl().params.at(k2).data(), u = h.l[q].param(k2.c_str()); for (size_t i = 0; i < t.total(); ++i) u.data()[i] = t.data()[i] = float(t.data()[i] + r.real(-0.1, 0.1)); } } c.count("param_changes"); }
    }
}
