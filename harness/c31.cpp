#include "ser.hpp"
const char* PROP = "C31";
uint64_t ncases(const Ctx& c) { return c.thorough ? 360000 : 18000; }
static bool same_state(Ctx& c, const std::string& key, dw::Model& a, dw::Model& b) {
    if (a.state().size() != b.state().size()) { c.fail(key + ":state", "different number of entries"); return false; }
    for (auto& kv : a.state()) { auto it = b.state().find(kv.first); if (it == b.state().end() || it->second.shape() != kv.second.shape()) { c.fail(key + ":state", "entry " + kv.first + " missing or of another shape"); return false; }
        if (!check_bits(c, key + ":state", kv.first.c_str(), it->second.data(), kv.second.data(), kv.second.total())) return false; }
    for (auto& kv : a.params()) { auto it = b.params().find(kv.first); if (it == b.params().end()) { c.fail(key + ":params", "parameter " + kv.first + " missing"); return false; } if (!check_bits(c, key + ":params", kv.first.c_str(), it->second.data().data(), kv.second.data().data(), kv.second.data().total())) return false; }
    c.count("states_compared"); return true;
}
static bool same_arch(Ctx& c, const std::string& key, const Arch& want, const dw::Model::Config& cfg) {
    Arch g = arch(cfg); if (!g.problems.empty()) { c.fail(key + ":config", g.problems[0]); return false; }
    if (!(want == g)) { c.fail(key + ":config", want.diff(g)); return false; } c.count("configs_compared"); return true;
}
static bool same_output(Ctx& c, Rng& r, const std::string& key, const Net& n, dw::Model& a, dw::Model& b) {
    a.compile(); b.compile(); a.train(false); b.train(false); std::vector<Tensor> x, y, z;
    for (int i : n.ins) { Tensor t(n.shape[size_t(i)]); fill(r, t.data(), t.total(), SGN); x.push_back(t); } for (int i : n.outs) { y.push_back(Tensor(n.shape[size_t(i)])); z.push_back(Tensor(n.shape[size_t(i)])); }
    a.forward(x, y); b.forward(x, z); c.count("outputs_compared");
    for (size_t i = 0; i < y.size(); ++i) if (!check_bits(c, key + ":output", ("output " + std::to_string(i)).c_str(), z[i].data(), y[i].data(), y[i].total())) return false;
    return true;
}
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; NetOpt o; if (idx % 4 == 0) o.max_ops = 4; if (idx % 16 == 5) { o.max_ops = 30; o.batch = 2; o.hw = 4; }
    const bool lng = (idx / 6) % 30 == 9; Net n = lng ? long_net(r, r.of({140, 200, 270, 330})) : gen_net(r, o); if (lng) c.count("long_networks");
    if (!lng && r.chance(1, 30)) { Spec s; s.t = DROPOUT; s.p = 0.3f; Shape big{r.range(2, 9), r.range(150, 600)}; int d = n.data(big, Placeholder(big), -1); n.ins.push_back(d); n.outs.push_back(n.add(s, {d})); c.count("large_masks"); }
    net_randomize(r, n);
    if (r.chance(1, 3)) {                                                        // unusual names (the layers are rebuilt by renaming before the model is made)
        static const char* odd[] = {"with space", "UPPER", "a.b", "\xd0\xb8\xd0\xbc\xd1\x8f", "x", "very_long_name_that_exceeds_any_small_string_buffer_0123456789_0123456789_0123456789", "quote\"s", "new\nline", "0", "-"};
        int k = 0; for (auto& q : n.ops) if (r.chance(1, 2)) { q.info.impl().name = std::string(odd[r.next() % 10]) + std::to_string(k); if (r.chance(1, 6)) q.info.impl().name += std::string("\0z", 2); if (r.chance(1, 60)) { q.info.impl().name += std::string(size_t(r.of({250, 256, 1000, 33000, 66000, 200000})), 'q'); c.count("long_names"); } ++k; } c.count("odd_names");
    }
    if (r.chance(1, 40)) { Spec s; s.t = LINEAR; s.units = r.of({300, 1025, 4096, 70000}); int d = n.add(s, {n.ins[0]}); n.outs.push_back(d); c.count("large_tensors"); }
    bool special = r.chance(1, 4); static const uint32_t sp[] = {0x7fc00001, 0xffc12345, 0x7f800000, 0xff800000, 0x80000000, 1, 0x807fffff, 0x7f7fffff, 0x0a0d0a1a};
    if (special) for (auto& q : n.ops) { std::vector<Tensor> ts; for (auto& kv : q.info.impl().params) ts.push_back(kv.second.data()); for (auto& kv : q.info.impl().buffers) ts.push_back(kv.second); for (auto& t : ts) for (size_t i = 0; i < t.total(); ++i) if (r.chance(1, 3)) t.data()[i] = fbits(sp[r.next() % 9]); }
    int how = int(idx % 6); static const char* hn[] = {"save-load", "state-path", "cfg-path", "streams", "twice", "state-after-training"};
    c.desc("%s|%s%s", hn[how], special ? "special values" : "", n.str().c_str());
    dw::Model m = n.model(); Arch want = arch(n); std::string f = c.work + "/m.bin", g = c.work + "/n.bin"; unlink(f.c_str()); unlink(g.c_str());
    if (r.chance(1, 2)) { spit(f, std::string(size_t(r.range(0, 100000)), 'z')); spit(g, std::string(5000, 'y')); }      // overwrite
    std::string key = hn[how]; std::map<std::string, std::vector<uint32_t>> snap; for (auto& kv : m.state()) snap[kv.first] = bitsof(kv.second);
    c.count("models");
    if (!same_arch(c, key + "-own", want, m.cfg())) return;
    auto another = [&]() { Net q; Net k; (void)k; // the same layers built again
        q.shape.clear(); std::map<int, int> id; for (size_t i = 0; i < n.shape.size(); ++i) if (n.producer[i] < 0) id[int(i)] = q.data(n.shape[i], Placeholder(n.shape[i]), -1);
        for (auto& op : n.ops) { Spec s = op.s; s.name = op.info.name(); std::vector<int> in; for (int i : op.in) in.push_back(id[i]); id[op.out] = q.add(s, in); }
        for (int i : n.ins) q.ins.push_back(id[i]); for (int i : n.outs) q.outs.push_back(id[i]); net_randomize(r, q); return q; };
    if (how == 0 || how == 4) {
        dw::save(m, f); dw::Model l = dw::load(f); c.count("saves");
        if (!same_arch(c, key, want, l.cfg()) || !same_state(c, key, m, l)) return;
        if (how == 4) { dw::save(l, g); dw::Model l2 = dw::load(g); c.count("saves"); if (!same_arch(c, key + "-again", want, l2.cfg()) || !same_state(c, key + "-again", m, l2)) return; if (slurp(f).size() != slurp(g).size()) { c.fail(key + "-again:file", "saving the loaded model writes another amount of data"); return; } l = l2; }
        if (l.inputs().size() != n.ins.size() || l.outputs().size() != n.outs.size() || l.layers().size() != n.ops.size()) { c.fail(key + ":interface", "number of inputs, outputs or layers differs"); return; }
        for (size_t i = 0; i < n.ins.size(); ++i) if (l.inputs()[i].shape() != n.shape[size_t(n.ins[i])]) { c.fail(key + ":interface", "input order or shape differs"); return; }
        for (size_t i = 0; i < n.outs.size(); ++i) if (l.outputs()[i].shape() != n.shape[size_t(n.outs[i])]) { c.fail(key + ":interface", "output order or shape differs"); return; }
        for (auto& op : n.ops) { dw::Layer q = l.getLayer(op.info.name()); if (q.type() != lt_name(op.s.t)) { c.fail(key + ":interface", "layer type differs"); return; } }
        if (!special && !same_output(c, r, key, n, m, l)) return;
        // the loaded model is independent of the original
        for (auto& kv : l.state()) for (size_t i = 0; i < kv.second.total(); ++i) kv.second.data()[i] += 1;
        for (auto& kv : m.state()) if (!samebits(kv.second, snap[kv.first])) { c.fail(key + ":shared", "the loaded model shares tensors with the saved one"); return; }
    } else if (how == 1 || how == 5) {
        Net q = another(); dw::Model m2 = q.model(); std::map<std::string, float*> where; for (auto& kv : m2.state()) where[kv.first] = kv.second.data();
        if (how == 5 && !special) { m.compile(); m.train(true); std::vector<Tensor> x, y; for (int i : n.ins) { Tensor t(n.shape[size_t(i)]); fill(r, t.data(), t.total(), SGN); x.push_back(t); } for (int i : n.outs) y.push_back(Tensor(n.shape[size_t(i)])); m.forward(x, y); m.backward(x, y, y); for (auto& kv : m.params()) { Tensor d = kv.second.data(), g2 = kv.second.grad(); for (size_t i = 0; i < d.total(); ++i) d.data()[i] -= 0.01f * g2.data()[i]; } c.count("trained"); }
        dw::save_state(m.state(), f); c.count("saves"); dw::load_state(m2.state(), f);
        if (!same_state(c, key, m, m2)) return;
        for (auto& kv : m2.state()) if (kv.second.data() != where[kv.first]) { c.fail(key + ":in-place", "state was not loaded in place"); return; }
        for (auto& op : q.ops) for (auto& kv : op.info.params()) if (!samebits(kv.second.data(), bitsof(m.state().at(op.info.name() + "." + kv.first)))) { c.fail(key + ":in-place", "loaded state is not seen in the layer"); return; }
        if (!special && how == 1 && !same_output(c, r, key, n, m, m2)) return;
    } else if (how == 2) {
        dw::save_cfg(m.cfg(), f); c.count("saves"); auto cfg = dw::load_cfg(f); if (!same_arch(c, key, want, cfg)) return;
        dw::Model b = dw::Model::Build(cfg); if (!same_arch(c, key + "-build", want, b.cfg())) return;
        if (r.chance(1, 2)) { dw::save_state(m.state(), g); dw::load_state(b.state(), g); if (!same_state(c, key, m, b)) return; if (!special && !same_output(c, r, key, n, m, b)) return; }
        dw::Model b2 = dw::Model::Build(m.cfg()); if (!same_arch(c, key + "-build", want, b2.cfg())) return;
    } else {
        Net q = another(); dw::Model m2 = q.model();                              // several records in one stream
        { std::ofstream o2(f, std::ios::binary); dw::save_state(m.state(), o2); dw::save_cfg(m.cfg(), o2); dw::save_state(m2.state(), o2); } c.count("saves");
        auto s2 = std::map<std::string, std::vector<uint32_t>>(); for (auto& kv : m2.state()) s2[kv.first] = bitsof(kv.second);
        std::ifstream in(f, std::ios::binary); dw::load_state(m2.state(), in); if (!same_state(c, key, m, m2)) return;
        auto cfg = dw::load_cfg(in); if (!same_arch(c, key, want, cfg)) return;
        dw::Model b = dw::Model::Build(cfg); dw::load_state(b.state(), in);
        for (auto& kv : b.state()) if (!samebits(kv.second, s2.at(kv.first))) { c.fail(key + ":state", "second state record differs in " + kv.first); return; }
        if (in.peek() != EOF) { c.fail(key + ":stream", "loading does not consume what saving wrote"); return; } c.count("states_compared");
    }
    for (auto& kv : m.state()) if (how != 5 && !(how == 0 && false) && !samebits(kv.second, snap[kv.first])) { c.fail(key + ":modified", "saving or loading changed the original model"); return; }
    unlink(f.c_str()); unlink(g.c_str());
}
