#include "net.hpp"
#include <deepworks/optimizer.hpp>
const char* PROP = "C30";
uint64_t ncases(const Ctx& c) { return c.thorough ? 400000 : 20000; }
static std::string lower(std::string s) { for (auto& ch : s) ch = char(tolower(ch)); return s; }
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; NetOpt o; if (idx % 4 == 0) o.max_ops = 4; if (idx % 16 == 5) { o.max_ops = 40; o.batch = 2; o.hw = 4; } o.named = !r.chance(1, 3);
    const bool lng = idx % 160 == 9; Net n = lng ? long_net(r, r.of({140, 200, 270, 330})) : gen_net(r, o); net_randomize(r, n); if (lng) c.count("long_networks"); std::vector<std::string> given; for (auto& q : n.ops) given.push_back(q.s.name);
    // some given names look like generated ones
    if (!lng && r.chance(1, 5)) { std::set<std::string> u; for (auto& g : given) u.insert(g); for (size_t k = 0; k < n.ops.size(); ++k) if (!given[k].empty() && r.chance(1, 2)) { std::string g = lower(lt_name(n.ops[r.next() % n.ops.size()].s.t)) + std::to_string(r.range(0, int(n.ops.size()))); if (!u.insert(g).second) continue; n.ops[k].info.impl().name = n.ops[k].s.name = given[k] = g; c.count("lookalike_names"); } }
    c.desc("net|%s", n.str().c_str());
    if (idx % 8 == 3 && n.ops.size() >= 2) {                                    // duplicate names
        Placeholder x(n.shape[0]); Placeholder a = dw::ReLU("dup")(x), b = r.chance(1, 2) ? dw::Sigmoid("dup")(a) : dw::ReLU("dup")(x); Placeholder d = dw::Add()(a, b);
        c.count("duplicate_names"); if (!throws([&] { dw::Model bad(x, d); })) { c.fail("duplicate-name:accepted", "two layers of one name accepted"); return; }
    }
    if (idx % 40 == 6) {                                                        // duplicates far apart, none is accepted
        int len = r.range(2, r.chance(1, 4) ? 300 : 60), a = r.range(0, len - 2), b = r.range(a + 1, len - 1); bool clash = !r.chance(1, 4); Placeholder x(n.shape[0]), y = x;
        for (int i = 0; i < len; ++i) { std::string nm = "n" + std::to_string(clash && i == b ? a : i); y = i % 3 ? dw::ReLU(nm)(y) : dw::Sigmoid(nm)(y); }
        c.count("long_duplicates"); bool th = throws([&] { dw::Model q(x, y); });
        if (th != clash) { c.failf(clash ? "duplicate-name:accepted" : "duplicate-name:rejected", "%d layers, %s: %s", len, clash ? "two of one name" : "all names different", th ? "rejected" : "accepted"); return; }
    }
    dw::Model m = n.model(); c.count("models");
    auto at = [&](const Placeholder& p) { for (size_t i = 0; i < n.ph.size(); ++i) if (&n.ph[i].impl() == &p.impl()) return int(i); return -1; };
    // inputs and outputs
    if (m.inputs().size() != n.ins.size() || m.outputs().size() != n.outs.size()) { c.fail("io:count", "wrong number of model inputs or outputs"); return; }
    for (size_t i = 0; i < n.ins.size(); ++i) if (at(m.inputs()[i]) != n.ins[i]) { c.fail("io:inputs", "inputs() differ"); return; }
    for (size_t i = 0; i < n.outs.size(); ++i) if (at(m.outputs()[i]) != n.outs[i]) { c.fail("io:outputs", "outputs() differ"); return; }
    // layers: every operation exactly once, producers first
    const dw::Model& cm = m; auto ls = cm.layers();
    if (ls.size() != n.ops.size()) { c.failf("layers:count", "%zu layers listed, network has %zu", ls.size(), n.ops.size()); return; }
    std::vector<int> pos(n.ops.size(), -1); std::set<std::string> names; std::set<int> ready; for (int i : n.ins) ready.insert(i);
    std::set<std::string> pkeys, skeys;
    auto clashing = [&](const std::string& w) { if (std::find(given.begin(), given.end(), w) != given.end()) return true; for (auto& q : ls) if (q.name() == w) return true; return false; };
    for (size_t i = 0; i < ls.size(); ++i) {
        auto& l = ls[i];
        if (l.outputs().size() != 1) { c.fail("layers:outputs", "a layer has " + std::to_string(l.outputs().size()) + " outputs"); return; }
        int d = at(l.outputs()[0]); int k = d < 0 ? -1 : n.producer[size_t(d)]; if (k < 0) { c.fail("layers:outputs", "a layer's output is not an operation's output"); return; }
        if (pos[size_t(k)] >= 0) { c.fail("layers:twice", "a layer is listed twice"); return; } pos[size_t(k)] = int(i);
        auto& op = n.ops[size_t(k)];
        if (l.type() != lt_name(op.s.t)) { c.fail("layers:type", "layer has type " + l.type() + " instead of " + lt_name(op.s.t)); return; }
        if (l.inputs().size() != op.in.size()) { c.fail("layers:inputs", "wrong number of layer inputs"); return; }
        for (size_t q = 0; q < op.in.size(); ++q) { if (at(l.inputs()[q]) != op.in[q]) { c.fail("layers:inputs", "layer " + l.name() + " is connected to other inputs"); return; } if (!ready.count(op.in[q])) { c.fail("layers:order", "layer " + l.name() + " is listed before its producer"); return; } }
        ready.insert(d);
        std::string want = given[size_t(k)].empty() ? lower(lt_name(op.s.t)) + std::to_string(i) : given[size_t(k)];
        if (given[size_t(k)].empty() && l.name() != want && clashing(want)) {         // position taken: any other number
            std::string p = lower(lt_name(op.s.t)); if (l.name().compare(0, p.size(), p) == 0 && l.name().size() > p.size() && l.name().find_first_not_of("0123456789", p.size()) == std::string::npos) { want = l.name(); c.count("clashes_avoided"); }
        }
        if (l.name() != want) { c.fail("layers:name", "layer is named '" + l.name() + "', expected '" + want + "'"); return; }
        if (!names.insert(l.name()).second) { c.fail("layers:name", "name used twice: " + l.name()); return; }
        dw::Layer f = m.getLayer(l.name()); if (f.type() != l.type() || f.outputs().size() != 1 || at(f.outputs()[0]) != d) { c.fail("getLayer:other", "getLayer returns another layer"); return; }
        if (l.params().size() != op.info.params().size() || l.buffers().size() != op.info.buffers().size()) { c.fail("layers:params", "layer " + l.name() + " has other parameters"); return; }
        for (auto& kv : op.info.params()) { auto it = l.params().find(kv.first); if (it == l.params().end() || it->second.data().data() != kv.second.data().data() || it->second.grad().data() != kv.second.grad().data()) { c.fail("layers:params", "parameter " + kv.first + " of " + l.name() + " missing or not shared"); return; } pkeys.insert(l.name() + "." + kv.first); skeys.insert(l.name() + "." + kv.first); }
        for (auto& kv : op.info.buffers()) { auto it = l.buffers().find(kv.first); if (it == l.buffers().end() || it->second.data() != kv.second.data()) { c.fail("layers:buffers", "buffer " + kv.first + " of " + l.name() + " missing or not shared"); return; } skeys.insert(l.name() + "." + kv.first); }
        c.count("layers_checked");
    }
    for (auto bad : {std::string(""), std::string("nope"), ls[0].name() + " ", ls[0].name() + ".weight"}) { if (names.count(bad)) continue; c.count("unknown_lookups"); if (!throws([&] { m.getLayer(bad); })) { c.fail("getLayer:unknown", "lookup of unknown layer '" + bad + "' succeeded"); return; } }
    // dictionaries
    auto same_keys = [&](const std::set<std::string>& want, auto& got, const char* what) { std::set<std::string> g; for (auto& kv : got) g.insert(kv.first); c.count("dictionaries"); if (g != want) { std::string d; for (auto& k : want) if (!g.count(k)) d += " -" + k; for (auto& k : g) if (!want.count(k)) d += " +" + k; c.fail(std::string(what) + ":keys", "keys differ:" + d); return false; } return true; };
    if (!same_keys(pkeys, m.params(), "params") || !same_keys(skeys, m.state(), "state") || !same_keys(skeys, cm.state(), "state")) return;
    for (size_t k = 0; k < n.ops.size(); ++k) {
        std::string ln = ls[size_t(pos[k])].name() + ".";
        for (auto& kv : n.ops[k].info.params()) {
            auto& p = m.params().at(ln + kv.first); Tensor s = m.state().at(ln + kv.first);
            if (p.data().data() != kv.second.data().data() || s.data() != p.data().data() || p.grad().data() != kv.second.grad().data() || s.shape() != kv.second.data().shape()) { c.fail("params:storage", ln + kv.first + " does not share storage"); return; }
        }
        for (auto& kv : n.ops[k].info.buffers()) { Tensor s = m.state().at(ln + kv.first); if (s.data() != kv.second.data() || s.shape() != kv.second.shape()) { c.fail("state:storage", ln + kv.first + " does not share storage"); return; } }
    }
    // behaviour: what is written anywhere is seen everywhere
    dw::Model copy = m; m.compile(); ByHand h(n); int rounds = r.range(1, 3);
    for (int q = 0; q < rounds; ++q) {
        bool mode = r.chance(1, 2); if (r.chance(1, 2)) for (auto& kv : m.params()) if (r.chance(1, 2)) { kv.second.train(r.chance(1, 2)); c.count("single_switches"); }
        (r.chance(1, 2) ? m : copy).train(mode); c.count("mode_switches");
        for (auto& op : n.ops) for (auto& kv : op.info.params()) if (kv.second.is_trainable() != mode) { c.fail("train:flag", "train(" + std::to_string(mode) + ") did not reach " + kv.first); return; }
        for (auto& kv : copy.params()) if (kv.second.is_trainable() != mode) { c.fail("train:flag", "train() not seen through params()"); return; }
        std::vector<std::string> sk(skeys.begin(), skeys.end());
        if (!sk.empty()) {                                                       // write through the state, read through the layer
            std::string k = r.pick(sk); size_t dot = k.find('.'); Tensor t = copy.state().at(k); for (size_t i = 0; i < t.total(); ++i) t.data()[i] = float(r.real(0.3, 0.9));
            dw::Layer l = m.getLayer(k.substr(0, dot)); std::string pn = k.substr(dot + 1); Tensor v = l.params().count(pn) ? l.params().at(pn).data() : l.buffers().at(pn);
            if (!samebits(v, bitsof(t))) { c.fail("state:write", "a write through state() is not seen in the layer"); return; } c.count("state_writes");
        }
        if (mode) {                                                              // optimizer step through params()
            for (auto& kv : m.params()) { Tensor g = kv.second.grad(); for (size_t i = 0; i < g.total(); ++i) g.data()[i] = 0.125f; }
            std::map<std::string, std::vector<float>> before; for (auto& kv : m.params()) before[kv.first] = flt(kv.second.data());
            dw::optimizer::SGD opt(m.params(), 0.25f); opt.step(); c.count("optimizer_steps");
            for (size_t k = 0; k < n.ops.size(); ++k) for (auto& kv : n.ops[k].info.params()) { std::string key = ls[size_t(pos[k])].name() + "." + kv.first; Tensor v = kv.second.data(), s = m.state().at(key); for (size_t i = 0; i < v.total(); ++i) { float w = before[key][i] - 0.03125f; if (std::fabs(v.data()[i] - w) > 1e-6 * (1 + std::fabs(w)) || bits(v.data()[i]) != bits(s.data()[i])) { c.fail("optimizer:unseen", "a step is not seen in " + key); return; } } }
        }
        bool drop = false; for (auto& op : n.ops) drop |= op.s.t == DROPOUT && op.s.p > 0; if (mode && drop) continue;
        for (size_t k = 0; k < n.ops.size(); ++k) h.l[k] = clone_layer(n.ops[k], n.shape[size_t(n.ops[k].in[0])]);
        h.train(mode); std::vector<std::vector<float>> X; std::vector<Tensor> x, y;
        for (int i : n.ins) { Tensor t(n.shape[size_t(i)]); fill(r, t.data(), t.total(), SGN); x.push_back(t); X.push_back(flt(t)); } for (int i : n.outs) y.push_back(Tensor(n.shape[size_t(i)]));
        (r.chance(1, 2) ? m : copy).forward(x, y); if (!h.forward(c, r, X, mode)) return; c.count("forwards");
        for (size_t i = 0; i < y.size(); ++i) if (!near(c, "forward:stale", "output " + std::to_string(i), y[i].data(), h.val[size_t(n.outs[i])].data(), y[i].total(), 1e-4)) return;
        for (size_t k = 0; k < n.ops.size(); ++k) for (auto& kv : n.ops[k].info.buffers()) { Tensor s = m.state().at(ls[size_t(pos[k])].name() + "." + kv.first); if (!near(c, "state:buffer", kv.first, s.data(), h.l[k].info.buffers().at(kv.first).data(), s.total(), 1e-4)) return; }
    }
}
