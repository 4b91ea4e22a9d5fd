// Several models over the same placeholders: they share layers, names, parameters, buffers and mode, and nothing else.
#include "ser.hpp"
#include <deepworks/optimizer.hpp>
const char* PROP = "C37";
uint64_t ncases(const Ctx& c) { return c.thorough ? 160000 : 8000; }
static std::string lower(std::string s) { for (auto& ch : s) ch = char(tolower(ch)); return s; }
struct Sub {                                                                    // a model over part of the network
    Net n; std::vector<size_t> op; std::unique_ptr<dw::Model> m; std::unique_ptr<ByHand> h; std::vector<std::string> key;
    std::vector<Tensor> x, y; std::vector<std::vector<float>> X; bool pending = false, exact = true; std::vector<std::vector<uint32_t>> xb, yb;
};
static std::unique_ptr<Sub> pick(Rng& r, const Net& n) {
    auto s = std::make_unique<Sub>(); std::vector<int> outs; for (size_t i = 0; i < n.shape.size(); ++i) if (n.producer[i] >= 0 && r.chance(1, 3)) outs.push_back(int(i));
    if (outs.empty() || r.chance(1, 4)) outs = {n.ops[r.next() % n.ops.size()].out};
    std::set<int> need(outs.begin(), outs.end()); for (size_t k = n.ops.size(); k-- > 0;) if (need.count(n.ops[k].out)) for (int i : n.ops[k].in) need.insert(i);
    std::map<int, int> id; Net& q = s->n;
    for (size_t i = 0; i < n.shape.size(); ++i) if (need.count(int(i))) id[int(i)] = q.data(n.shape[i], n.ph[i], -1);
    for (size_t k = 0; k < n.ops.size(); ++k) if (need.count(n.ops[k].out)) { NetOp o = n.ops[k]; for (int& i : o.in) i = id[i]; o.out = id[o.out]; q.producer[size_t(o.out)] = int(q.ops.size()); q.ops.push_back(o); s->op.push_back(k); }
    for (size_t i = 0; i < q.shape.size(); ++i) if (q.producer[i] < 0) q.ins.push_back(int(i)); for (int i : outs) q.outs.push_back(id[i]);
    for (auto v : {&q.ins, &q.outs}) for (size_t i = v->size(); i > 1; --i) std::swap((*v)[i - 1], (*v)[r.next() % i]);
    return s;
}
static bool describe(Ctx& c, Sub& s, const std::string& when) {                 // layers, dictionaries and configuration of one model
    dw::Model& m = *s.m; std::map<int, size_t> seen; auto at = [&](const Placeholder& p) { for (size_t i = 0; i < s.n.ph.size(); ++i) if (&s.n.ph[i].impl() == &p.impl()) return int(i); return -1; };
    if (m.layers().size() != s.n.ops.size() || m.inputs().size() != s.n.ins.size() || m.outputs().size() != s.n.outs.size()) { c.fail(when + ":layers", "the model does not list exactly its own layers, inputs and outputs"); return false; }
    std::set<std::string> names, pk, sk;
    for (auto& l : m.layers()) {
        int d = l.outputs().size() == 1 ? at(l.outputs()[0]) : -1, k = d < 0 ? -1 : s.n.producer[size_t(d)]; if (k < 0 || !seen.emplace(k, 0).second) { c.fail(when + ":layers", "a layer is not one of the model's layers or listed twice"); return false; }
        auto& o = s.n.ops[size_t(k)]; if (l.name() != o.info.name() || l.type() != lt_name(o.s.t)) { c.fail(when + ":layers", "layer has another name or type"); return false; }
        if (!o.s.name.empty() && l.name() != o.s.name) { c.fail(when + ":name", "the given name '" + o.s.name + "' became '" + l.name() + "'"); return false; }
        if (o.s.name.empty()) { std::string p = lower(lt_name(o.s.t)); if (l.name().compare(0, p.size(), p) || l.name().size() == p.size() || l.name().find_first_not_of("0123456789", p.size()) != std::string::npos) { c.fail(when + ":name", "generated name '" + l.name() + "'"); return false; } }
        if (!names.insert(l.name()).second) { c.fail(when + ":name", "two layers are called " + l.name()); return false; }
        if (at(m.getLayer(l.name()).outputs()[0]) != d) { c.fail(when + ":getLayer", "another layer is found under " + l.name()); return false; }
        for (auto& kv : o.info.params()) { std::string key = l.name() + "." + kv.first; pk.insert(key); sk.insert(key); auto it = m.params().find(key); if (it == m.params().end() || it->second.data().data() != kv.second.data().data() || it->second.grad().data() != kv.second.grad().data()) { c.fail(when + ":params", key + " missing or not shared"); return false; } auto st = m.state().find(key); if (st == m.state().end() || st->second.data() != kv.second.data().data()) { c.fail(when + ":state", key + " missing or not shared"); return false; } }
        for (auto& kv : o.info.buffers()) { std::string key = l.name() + "." + kv.first; sk.insert(key); auto st = m.state().find(key); if (st == m.state().end() || st->second.data() != kv.second.data()) { c.fail(when + ":state", key + " missing or not shared"); return false; } }
    }
    if (m.params().size() != pk.size() || m.state().size() != sk.size()) { c.fail(when + ":dictionaries", "entries of layers that are not part of the model"); return false; }
    Arch g = arch(m.cfg()), w = arch(s.n); if (!g.problems.empty() || !(g == w)) { c.fail(when + ":config", g.problems.empty() ? w.diff(g) : g.problems[0]); return false; }
    c.count("descriptions"); return true;
}
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; NetOpt o; o.max_ops = idx % 8 == 5 ? 16 : 7; o.batch = 4; o.hw = 5; o.dropout = false; o.named = !r.chance(1, 3);
    Net n = gen_net(r, o); net_randomize(r, n); c.desc("net|%s", n.str().c_str());
    std::vector<char> mode(n.ops.size() + 64, 1); std::vector<std::unique_ptr<Sub>> ms; int made = 0;
    auto overlap = [&](const Sub& a, const Sub& b) { for (size_t i : a.op) for (size_t j : b.op) if (i == j) return true; return false; };
    auto make = [&]() -> bool {
        auto s = pick(r, n); std::set<std::string> names; bool clash = false; for (auto& q : s->n.ops) if (!q.info.name().empty() && !names.insert(q.info.name()).second) clash = true;
        bool some = false; for (auto& q : s->n.ops) some |= q.info.name().empty();
        bool threw = throws([&] { s->m.reset(new dw::Model(s->n.model())); });
        if (threw != clash) { c.fail(clash ? "make:clash-accepted" : "make:rejected", clash ? "layers of one name accepted" : "a model over layers of other models is rejected"); return false; }
        if (clash) { c.count("clashing_names"); return true; }
        if (some && made) c.count("named_later"); ++made; s->m->compile(); s->h = std::make_unique<ByHand>(s->n); for (auto& q : s->n.ops) s->key.push_back(q.info.name());
        for (auto& other : ms) if (overlap(*s, *other)) { c.count("sharing_models"); break; }
        if (!describe(c, *s, "new")) return false; ms.push_back(std::move(s)); c.count("models"); return true;
    };
    auto forward = [&](Sub& s) -> bool {
        std::vector<char> md; bool mixed = false; for (size_t k : s.op) { md.push_back(mode[k]); mixed |= mode[k] != mode[s.op[0]]; }
        for (size_t k = 0; k < s.op.size(); ++k) s.h->refresh(k); s.h->train(md); if (mixed) c.count("mixed_modes");
        s.x.clear(); s.y.clear(); s.X.clear(); s.xb.clear(); s.yb.clear();
        for (int i : s.n.ins) { Tensor t(s.n.shape[size_t(i)]); fill(r, t.data(), t.total(), r.of({SGN, UNI, SPARSE})); s.x.push_back(t); s.X.push_back(flt(t)); s.xb.push_back(bitsof(t)); }
        for (int i : s.n.outs) { Tensor t(s.n.shape[size_t(i)]); for (size_t q = 0; q < t.total(); ++q) t.data()[q] = fbits(0x7fc00000); s.y.push_back(t); }
        std::map<size_t, std::map<std::string, std::vector<uint32_t>>> foreign; for (size_t k = 0; k < n.ops.size(); ++k) if (std::find(s.op.begin(), s.op.end(), k) == s.op.end()) for (auto& kv : n.ops[k].info.buffers()) foreign[k][kv.first] = bitsof(kv.second);
        s.m->forward(s.x, s.y); c.count("forwards"); s.exact = true;
        if (!s.h->forward(c, r, s.X, true)) return false;
        for (size_t i = 0; i < s.y.size(); ++i) if (!near(c, "forward:value", "output " + std::to_string(i), s.y[i].data(), s.h->val[size_t(s.n.outs[i])].data(), s.y[i].total(), 1e-4, &s.exact)) return false;
        for (size_t i = 0; i < s.x.size(); ++i) if (!samebits(s.x[i], s.xb[i])) { c.fail("forward:input", "forward changed an input"); return false; }
        for (size_t k = 0; k < s.op.size(); ++k) for (auto& kv : s.n.ops[k].info.buffers()) if (!near(c, "forward:buffer", kv.first, kv.second.data(), s.h->l[k].info.buffers().at(kv.first).data(), kv.second.total(), 1e-4)) return false;
        for (auto& f : foreign) for (auto& kv : f.second) if (!samebits(n.ops[f.first].info.buffers().at(kv.first), kv.second)) { c.fail("forward:foreign-buffer", "forward changed a buffer of a layer of another model"); return false; }
        for (auto& t : s.y) s.yb.push_back(bitsof(t)); s.pending = true; for (size_t k : s.op) if (!mode[k]) s.pending = false;
        return true;
    };
    auto backward = [&](Sub& s) -> bool {
        std::vector<std::vector<float>> G; std::vector<Tensor> g; for (int i : s.n.outs) { Tensor t(s.n.shape[size_t(i)]); fill(r, t.data(), t.total(), SGN); g.push_back(t); G.push_back(flt(t)); }
        for (auto& op : n.ops) for (auto& kv : op.info.impl().params) { Tensor t = kv.second.grad(); for (size_t q = 0; q < t.total(); ++q) t.data()[q] = float(r.real(-9, 9)); }
        std::map<size_t, std::map<std::string, std::vector<uint32_t>>> foreign; for (size_t k = 0; k < n.ops.size(); ++k) if (std::find(s.op.begin(), s.op.end(), k) == s.op.end()) for (auto& kv : n.ops[k].info.params()) foreign[k][kv.first] = bitsof(kv.second.grad());
        if (!s.h->backward(c, r, G)) return false;
        s.m->backward(s.x, s.y, g); c.count("backwards");
        for (size_t i = 0; i < s.y.size(); ++i) if (!samebits(s.y[i], s.yb[i])) { c.fail("backward:output", "backward changed an output"); return false; }
        for (auto& f : foreign) for (auto& kv : f.second) if (!samebits(n.ops[f.first].info.params().at(kv.first).grad(), kv.second)) { c.fail("backward:foreign-gradient", "backward changed a gradient of a layer of another model"); return false; }
        if (!s.exact && s.h->margin < 1e-3) { c.count("kinks_skipped"); return true; }
        for (size_t k = 0; k < s.op.size(); ++k) for (auto& kv : s.n.ops[k].info.params()) { Tensor a = kv.second.grad(), b = s.h->l[k].grad(kv.first.c_str()); c.count("gradients"); if (!near(c, std::string("backward:gradient-") + lt_name(s.n.ops[k].s.t), kv.first, a.data(), b.data(), a.total(), 1e-3, nullptr, 50 * s.h->noise[{k, kv.first}])) return false; }
        return true;
    };
    auto flags = [&]() -> bool { for (auto& s : ms) for (size_t k = 0; k < s->op.size(); ++k) for (auto& kv : s->n.ops[k].info.params()) if (kv.second.is_trainable() != (mode[s->op[k]] != 0) || s->m->params().at(s->key[k] + "." + kv.first).is_trainable() != (mode[s->op[k]] != 0)) { c.fail("train:flag", "the training mode of " + s->key[k] + " differs from what was last set"); return false; } return true; };
    int first = r.range(1, 3); for (int k = 0; k < first; ++k) if (!make()) return;
    int steps = r.range(3, 10);
    for (int st = 0; st < steps && !ms.empty(); ++st) {
        int what = r.range(0, 9); Sub& s = *ms[r.next() % ms.size()];
        auto drop = [&](const Sub& by) { for (auto& q : ms) if (overlap(*q, by)) q->pending = false; };         // a pass whose layers changed meanwhile is not continued
        if (what <= 2) { if (!forward(s)) return; if (s.pending && r.chance(1, 2)) { if (!backward(s)) return; s.pending = false; } }
        else if (what == 3) {                                                    // interleaved passes over several models
            std::vector<Sub*> v; for (auto& q : ms) if (r.chance(2, 3)) v.push_back(q.get()); for (auto q : v) { if (!forward(*q)) return; }
            for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.next() % i]); for (auto q : v) if (q->pending) { if (!backward(*q)) return; q->pending = false; } if (v.size() > 1) c.count("interleavings");
        } else if (what == 4) { bool md = r.chance(1, 2); s.m->train(md); for (size_t k : s.op) mode[k] = md; drop(s); c.count("mode_switches");
            for (size_t k : s.op) if (n.ops[k].info.params().empty()) mode[k] = md; if (!flags()) return; }
        else if (what == 5) {                                                    // optimizer step of one model
            for (auto& op : n.ops) for (auto& kv : op.info.impl().params) { Tensor t = kv.second.grad(); for (size_t q = 0; q < t.total(); ++q) t.data()[q] = 0.125f; }
            std::map<std::pair<size_t, std::string>, std::vector<float>> before; for (size_t k = 0; k < n.ops.size(); ++k) for (auto& kv : n.ops[k].info.params()) before[{k, kv.first}] = flt(kv.second.data());
            dw::optimizer::SGD opt(s.m->params(), 0.25f); opt.step(); c.count("optimizer_steps"); drop(s);
            for (auto& b : before) { bool mine = std::find(s.op.begin(), s.op.end(), b.first.first) != s.op.end() && mode[b.first.first]; Tensor t = n.ops[b.first.first].info.params().at(b.first.second).data(); for (size_t i = 0; i < b.second.size(); ++i) { float w = b.second[i] - (mine ? 0.03125f : 0.f); if (mine ? std::fabs(t.data()[i] - w) > 1e-6 * (1 + std::fabs(w)) : bits(t.data()[i]) != bits(w)) { c.fail("optimizer:parameters", mine ? "a step is not seen in the layer" : "a step changed a parameter that is frozen or of another model"); return; } } }
        } else if (what == 6) { if (ms.size() < 5) { if (!make()) return; } }
        else if (what == 7) {                                                    // the network grows, further models are built over it
            int k = r.range(1, 3); while (k-- > 0 && n.ops.size() < 40) { int d = r.range(0, int(n.shape.size()) - 1); const Shape in = n.shape[size_t(d)]; std::vector<int> kinds{RELU, SIGMOID, LINEAR, ADD}; if (in.size() == 2) kinds.push_back(BN1); if (in.size() == 4) { kinds.push_back(CONV); kinds.push_back(BN2); } Spec q = net_spec(r, r.pick(kinds), in, o); std::vector<int> args{d}; if (q.t == ADD) { std::vector<int> v; for (size_t i = 0; i < n.shape.size(); ++i) if (n.shape[i] == in) v.push_back(int(i)); args.push_back(r.pick(v)); } if (o.named && r.chance(1, 2)) q.name = "x" + std::to_string(n.ops.size()); n.add(q, args); }
            c.count("extensions"); if (ms.size() < 5) { if (!make()) return; }
        } else if (what == 8) { if (ms.size() > 1 && r.chance(1, 2)) { ms.erase(ms.begin() + long(r.next() % ms.size())); c.count("models_destroyed"); } else { s.m->compile(); s.pending = false; c.count("recompiles"); } }
        else {                                                                   // a saved copy is independent of all of them
            std::string f = c.work + "/m.bin"; dw::save(*s.m, f); dw::Model l = dw::load(f); unlink(f.c_str()); c.count("saves");
            for (auto& kv : s.m->state()) { auto it = l.state().find(kv.first); if (it == l.state().end() || it->second.data() == kv.second.data() || !samebits(it->second, bitsof(kv.second))) { c.fail("save:state", "the saved copy differs in " + kv.first); return; } }
            std::map<std::pair<Sub*, std::string>, std::vector<uint32_t>> snap; for (auto& q : ms) for (auto& kv : q->m->state()) snap[{q.get(), kv.first}] = bitsof(kv.second);
            for (auto& kv : l.state()) for (size_t i = 0; i < kv.second.total(); ++i) kv.second.data()[i] += 1; l.train(false); if (!flags()) return;
            for (auto& kv : snap) if (!samebits(kv.first.first->m->state().at(kv.first.second), kv.second)) { c.fail("save:shared", "the loaded copy shares " + kv.first.second); return; }
        }
        for (auto& q : ms) for (size_t k = 0; k < q->op.size(); ++k) if (q->n.ops[k].info.name() != q->key[k]) { c.fail("name:changed", "layer " + q->key[k] + " is now called " + q->n.ops[k].info.name()); return; }
    }
    for (auto& s : ms) { if (!describe(c, *s, "later")) return; if (!forward(*s)) return; }
}
