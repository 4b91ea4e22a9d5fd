#include "lcheck.hpp"
#include <deepworks/model.hpp>
const char* PROP = "C27";
uint64_t ncases(const Ctx& c) { return c.thorough ? 960000 : 48000; }
static Shape rnd_shape(Rng& r, int rank) { Shape s; for (int i = 0; i < rank; ++i) s.push_back(r.range(1, 6)); return s; }
// Builds; when that is accepted, runs.  True when an exception came out of either.
static bool rejected(Ctx& c, Rng& r, const Placeholders& in, const std::function<Placeholder()>& mk) {
    Placeholder out;
    if (throws([&] { out = mk(); })) { c.count("rejected_at_build"); return true; }
    bool t = throws([&] {
        dw::Model m(in, {out}); m.compile();
        std::vector<Tensor> x, y; for (auto& p : in) { Tensor t(p.shape()); fill(r, t.data(), t.total(), SGN); x.push_back(t); }
        y.push_back(Tensor(out.shape())); m.forward(x, y);
    });
    if (t) c.count("rejected_at_run");
    return t;
}
static void invalid_layer(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; int t = int(idx / 5 % NLT); Spec s; Shape in; GenOpt o; o.cap4 = 8; o.cap2 = 12; o.batch = 4; gen_layer(r, t, s, in, o);
    std::string what; Shape in2 = in; bool factory = r.chance(1, 2);
    dw::Attributes at = attrs_of(s); int drop = -1; Placeholders ph;
    auto bad_int = [&] { return r.of({0, 0, -1, -3, -1000000}); };
    std::vector<int> kinds;                                                  // 0 rank, 1 int attribute, 2 geometry, 3 missing, 4 wrong type, 5 inputs, 6 operands
    if (is4d(s) || is2d(s) || t == LINEAR) { kinds.push_back(0); kinds.push_back(0); }
    if (t == LINEAR || t == CONV) kinds.push_back(1);
    if (t == CONV || t == MAXPOOL) for (int i = 0; i < 5; ++i) kinds.push_back(2);
    if (!at.empty()) { kinds.push_back(3); kinds.push_back(4); }
    kinds.push_back(5); if (t == ADD) { kinds.push_back(6); kinds.push_back(6); }
    int kind = kinds[r.next() % kinds.size()];
    if (kind == 0) { std::vector<int> rk; for (int i = 0; i <= 6; ++i) { bool ok = is4d(s) ? i == 4 : is2d(s) ? i == 2 : i >= 2; if (!ok) rk.push_back(i); } in = rnd_shape(r, r.pick(rk)); what = "rank"; }
    if (kind == 1) { s.units = bad_int(); what = "units"; }
    if (kind == 2) {
        size_t a = size_t(r.range(0, 1));
        switch (r.range(0, 3)) {
            case 0: s.k[a] = bad_int(); what = "kernel"; break;
            case 1: s.st[a] = bad_int(); what = "stride"; break;
            case 2: s.pad[a] = -r.range(1, 3); what = "padding"; break;
            default: s.k[a] = in[2 + a] + 2 * s.pad[a] + r.range(1, 4); s.st[a] = r.range(1, 7); what = "oversized-kernel";
        }
    }
    at = attrs_of(s);
    if (kind == 3 || kind == 4) {
        factory = true; std::vector<std::string> n; for (auto& kv : at) n.push_back(kv.first); std::sort(n.begin(), n.end()); std::string v = r.pick(n); what = (kind == 3 ? "missing-" : "mistyped-") + v;
        if (kind == 3) { at.erase(v); if (r.chance(1, 3)) at.emplace(v + "_", 3); }
        else {
            auto ty = at.at(v).type(); auto sh = at.at(v).shape(); dw::Attribute b;
            for (;;) { int q = r.range(0, 4); if (q == 0) b = dw::Attribute(3); else if (q == 1) b = dw::Attribute(0.5f); else if (q == 2) b = dw::Attribute(A2{1, 1}); else if (q == 3) b = dw::Attribute(std::array<float, 2>{1.f, 1.f}); else { at.erase(v); at.emplace(v, std::string("x")); break; } if (b.type() != ty || b.shape() != sh) { at.erase(v); at.emplace(v, b); break; } }
        }
    }
    size_t n = size_t(n_in(s));
    if (kind == 5) { factory = true; size_t bad; do bad = size_t(r.range(0, 4)); while (bad == n); n = bad; what = "inputs"; }
    for (size_t i = 0; i < n; ++i) ph.push_back(Placeholder(in));
    if (kind == 6) { what = "operands"; in2 = in; if (r.chance(1, 3) && in.size() > 1) std::swap(in2[0], in2[in.size() - 1]); else if (r.chance(1, 2)) in2.push_back(1); else in2[r.next() % in2.size()] += 1; if (in2 == in) in2[0] += 2; if (r.chance(1, 2)) ph = {Placeholder(in), Placeholder(in2)}; else ph = {Placeholder(in2), Placeholder(in)}; }
    (void)drop;
    std::string key = std::string(lt_name(t)) + "-" + what;
    c.desc("%s|%s in=%s%s n=%zu %s", key.c_str(), s.str().c_str(), str(in).c_str(), kind == 6 ? str(in2).c_str() : "", n, factory ? "factory" : "direct");
    c.count("invalid_" + what.substr(0, what.find('-') == std::string::npos ? what.size() : what.find('-')));
    bool ok = factory ? rejected(c, r, ph, [&] { return dw::make_layer(lt_name(t), "l", at, ph); }) : rejected(c, r, ph, [&] { return build(s, ph); });
    if (!ok) c.fail(key + ":accepted", "neither building nor running it threw");
}
static void unknown_type(Ctx& c) {
    Rng& r = c.rng; static const char* bad[] = {"", "linear", "LINEAR", "Conv", "Linear ", " ReLU", "Relu", "BatchNorm", "BatchNorm3D", "Max", "MaxPool", "Dropout2", "add", "Softma", "GELU"};
    std::string t = bad[r.next() % 15]; Spec s; Shape in; gen_layer(r, r.range(0, NLT - 1), s, in); c.desc("unknown|'%s'", t.c_str()); c.count("invalid_type");
    if (!throws([&] { dw::make_layer(t, "n", attrs_of(s), {Placeholder(in), Placeholder(in)}); })) c.fail("unknown-type:accepted", "layer type '" + t + "' accepted");
}
struct Net { dw::Model m; std::vector<Shape> in, out; };
static Net net(Rng& r) {
    int b = r.range(1, 4), f = r.range(1, 6); Placeholders ins, outs; int k = r.range(0, 3);
    if (k == 0) { Placeholder x({b, f}); ins = {x}; outs = {dw::Softmax()(dw::Linear(r.range(1, 5))(x))}; }
    else if (k == 1) { Placeholder x({b, f}), y({b, f}); ins = {x, y}; outs = {dw::Sigmoid()(dw::Add()(dw::ReLU()(x), y))}; }
    else if (k == 2) { int h = r.range(3, 6), w = r.range(3, 6); Placeholder x({b, 2, h, w}); ins = {x}; Placeholder q = dw::Convolution(3, A2{3, 3}, A2{1, 1}, A2{1, 1})(x); outs = {dw::Linear(2)(dw::MaxPooling(A2{2, 2}, A2{0, 0}, A2{1, 1})(q)), dw::GlobalAvgPooling()(q)}; }
    else { Placeholder x({b, f}), y({b, f + 1}); ins = {x, y}; outs = {dw::Linear(3)(x), dw::BatchNorm1D()(y)}; }
    Net n{dw::Model(ins, outs), {}, {}}; for (auto& p : ins) n.in.push_back(p.shape()); for (auto& p : outs) n.out.push_back(p.shape());
    return n;
}
static Shape other(Rng& r, const Shape& s) {
    for (;;) { Shape q = s; switch (r.range(0, 6)) { case 0: q[0] += 1; break; case 1: if (q[0] > 1) q[0] -= 1; break; case 2: q.push_back(1); break; case 3: q = {int(prod(s))}; break; case 4: q[r.next() % q.size()] += 1; break; case 5: std::swap(q[0], q[q.size() - 1]); break; default: q.back() = std::max(1, q.back() / 2); } if (q != s) return q; }
}
static void model_args(Ctx& c) {
    Rng& r = c.rng; Net n = net(r); auto mk = [&](const std::vector<Shape>& v) { std::vector<Tensor> o; for (auto& s : v) { Tensor t(s); fill(r, t.data(), t.total(), UNI); o.push_back(t); } return o; };
    auto x = mk(n.in), y = mk(n.out), g = mk(n.out);
    bool nocompile = r.chance(1, 8), bw = r.chance(1, 2); int which = r.range(0, bw ? 2 : 1), how = r.range(0, 3); std::string d;
    if (!nocompile) { n.m.compile(); n.m.forward(x, y); n.m.backward(x, y, g); }
    auto& v = which == 0 ? x : which == 1 ? y : g;
    if (!nocompile) {
        if (how == 0) { size_t k = r.next() % (v.size() + 1); if (k == v.size()) k = 0; v.resize(k); d = "fewer"; }
        else if (how == 1) { v.push_back(v[0]); d = "more"; }
        else { size_t k = r.next() % v.size(); Shape q = r.chance(1, 10) ? Shape{} : other(r, v[k].shape()); Tensor t; if (!q.empty()) { t = Tensor(q); fill(r, t.data(), t.total(), UNI); } v[k] = t; d = "shape" + str(q); }
    } else d = "uncompiled";
    static const char* wn[] = {"input", "output", "grad"}; std::string key = std::string(bw ? "backward-" : "forward-") + (nocompile ? "uncompiled" : std::string(wn[which]) + "-" + d.substr(0, 5));
    c.desc("%s|%s in0=%s out0=%s", key.c_str(), d.c_str(), str(n.in[0]).c_str(), str(n.out[0]).c_str());
    bool ok = throws([&] { if (bw) n.m.backward(x, y, g); else n.m.forward(x, y); });
    c.count(nocompile ? "uncompiled_calls" : "mismatching_calls");
    if (!ok) { c.fail(key + ":accepted", "no exception"); return; }
    if (!nocompile) { auto x2 = mk(n.in), y2 = mk(n.out), g2 = mk(n.out); n.m.forward(x2, y2); n.m.backward(x2, y2, g2); c.count("calls_after_rejection"); }
}
static void model_graph(Ctx& c) {
    Rng& r = c.rng; int b = r.range(1, 4), f = r.range(1, 5), k = r.range(0, 7); static const char* nm[] = {"undeclared-input", "unconnected-input", "same-name", "input-twice", "output-twice", "produced-input", "input-as-output", "only-input"};
    c.desc("model-%s|b=%d f=%d", nm[k], b, f); c.count("invalid_models");
    Placeholder x({b, f}), y({b, f}); Tensor tx({b, f}), ty({b, f}), to; fill(r, tx.data(), tx.total(), UNI); fill(r, ty.data(), ty.total(), UNI);
    auto use = [&](Placeholders in, Placeholders out) { for (auto v : {&in, &out}) for (size_t i = v->size(); i > 1; --i) std::swap((*v)[i - 1], (*v)[r.next() % i]); dw::Model m(in, out); m.compile(); std::vector<Tensor> a, o; for (auto& p : in) { Tensor t(p.shape()); fill(r, t.data(), t.total(), UNI); a.push_back(t); } for (auto& p : out) o.push_back(Tensor(p.shape())); m.forward(a, o); };
    bool ok = throws([&] {
        if (k == 0) use({x}, {dw::Add()(dw::ReLU()(x), y)});
        else if (k == 1) use({x, y}, {dw::ReLU()(x)});
        else if (k == 2) { Placeholder o = dw::ReLU("a")(dw::Sigmoid("a")(x)); dw::Model m(x, o); }
        else if (k == 3) { Placeholders in{x, x}; if (r.chance(1, 2)) in.push_back(y); use(in, {in.size() == 3 ? dw::Add()(x, y) : dw::ReLU()(x)}); }
        else if (k == 4) { Placeholder o = dw::Sigmoid()(x); Placeholders out{o, o}; if (r.chance(1, 2)) out.push_back(dw::ReLU()(o)); use({x}, out); }
        else if (k == 5) { Placeholder mid = dw::Sigmoid()(x), o = dw::ReLU()(mid); if (r.chance(1, 2)) use({x, mid}, {o}); else use({mid}, {o}); }
        else if (k == 6) use({x}, {x, dw::ReLU()(x)});
        else use({x}, {x});
    });
    c.count(std::string("invalid_model_") + nm[k]);
    if (!ok) c.fail(std::string("model-") + nm[k] + ":accepted", "no exception");
}
void run_case(Ctx& c, uint64_t idx) {
    int k = int(idx % 5);
    if (k < 3) invalid_layer(c, idx); else if (k == 3) model_args(c); else if (idx % 2) unknown_type(c); else model_graph(c);
}
