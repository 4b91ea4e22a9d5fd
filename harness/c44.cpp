// Memory runs out at every point of every call: it is reported by an exception, nothing is leaked or written where it
// does not belong, and the same call works afterwards.
#include "ser.hpp"
#include "loader.hpp"
#include "images.hpp"
#include "optref.hpp"
#include <atomic>
#include <omp.h>
#include <csignal>
#include <sys/wait.h>
#include <deepworks/loss.hpp>
#include <deepworks/metrics.hpp>
const char* PROP = "C44";
uint64_t ncases(const Ctx& c) { return c.thorough ? 60000 : 4800; }
extern std::atomic<bool> g_oom_on; extern std::atomic<long> g_oom_seen, g_oom_fired; extern long g_oom_at; extern int g_oom_len;
struct Armed { Armed(long at, int len) { g_oom_at = at; g_oom_len = len; g_oom_seen = 0; g_oom_fired = 0; g_oom_on = true; } ~Armed() { g_oom_on = false; } };

typedef std::function<void()> Act;
struct Sc {                              // one scenario: freshly made objects and a call on them
    Act act;                             // the call under test
    std::function<std::string()> result; // what it produced, after it returned
    std::function<std::string()> check;  // a problem with anything the call had no business with ("" if none)
    Act after;                           // more calls that are allowed to throw, after a failed call
    Act reset;                           // puts state the call updates back before it is repeated
    std::shared_ptr<void> keep;
};
typedef std::function<Sc()> Make;
static std::string hexs(const Tensor& t) { return std::string(reinterpret_cast<const char*>(t.data()), t.total() * 4); }

// One attempt: request number `at` (and len - 1 more) is refused.  Returns false after a violation.
static bool attempt(Ctx& c, const std::string& key, const Make& make, long at, int len, const std::string& want, bool* fired, bool quiet = false) {
    Sc s = make(); bool threw = false; std::string kind;
    {
        Armed a(at, len);
        try { s.act(); } catch (const std::bad_alloc&) { threw = true; kind = "bad_alloc"; } catch (const std::exception&) { threw = true; kind = "other"; } catch (...) { threw = true; kind = "unknown"; }
    }
    *fired = g_oom_fired > 0; if (quiet) return true;
    c.count("attempts"); if (*fired) { c.count("refused_requests"); c.count(threw ? "reported" : "survived"); if (threw) c.count("reported_" + kind); }
    auto where = [&] { return "request " + std::to_string(at) + (len > 1 ? " and those after it" : "") + " refused: "; };
    if (!*fired && threw) { c.fail(key + ":exception", "no request was refused, but the call threw"); return false; }
    if (kind == "unknown") { c.fail(key + ":exception", where() + "something that is not an exception was thrown"); return false; }
    if (s.check) { std::string p = s.check(); if (!p.empty()) { c.fail(key + ":damage", where() + p); return false; } }
    if (!threw) { std::string got = s.result(); if (got != want) { c.fail(key + ":silent", where() + "the call returned normally with another result"); return false; } return true; }
    if (s.after) s.after();
    if (s.check) { std::string p = s.check(); if (!p.empty()) { c.fail(key + ":damage", where() + "a call after it: " + p); return false; } }
    if (s.reset) s.reset();
    try { s.act(); } catch (const std::exception& e) { c.fail(key + ":repeat", where() + "repeating the call threw " + std::string(e.what()).substr(0, 150)); return false; }
    if (s.check) { std::string p = s.check(); if (!p.empty()) { c.fail(key + ":damage", where() + "the repeated call: " + p); return false; } }
    if (s.result() != want) { c.fail(key + ":repeat", where() + "repeating the call gave another result"); return false; }
    c.count("repeated"); return true;
}
static bool monitor(Ctx& c, const std::string& key, const Make& make) {
    std::string want, cold; bool f = false, iscold = c.rng.chance(1, 2); long total = 0;
    if (iscold) {                            // nothing that is created lazily exists yet
        Sc s = make(); { Armed a(c.rng.range(0, 12), c.rng.chance(1, 3) ? 1000000000 : 1); try { s.act(); } catch (const std::exception&) { f = true; } }
        if (s.check) { std::string p = s.check(); if (!p.empty()) { c.fail(key + ":damage", "first use: " + p); return false; } } if (f && s.after) s.after(); if (f && s.reset) s.reset();
        if (f) try { s.act(); } catch (const std::exception& e) { c.fail(key + ":repeat", "repeating the first call threw " + std::string(e.what()).substr(0, 150)); return false; }
        cold = s.result(); c.count("cold_calls");
    }
    for (int k = 0; k < 2; ++k) { Sc s = make(); { Armed a(-1, 1); s.act(); } total = g_oom_seen; std::string w = s.result(); if (k && w != want) harness_error("scenario " + key + " is not deterministic: " + c.d); want = w; }
    if (iscold && cold != want) { c.fail(key + ":repeat", "first use, out of memory: repeating the call gave another result"); return false; }
    c.maxi("requests", total); std::vector<long> at; const long cap = c.thorough ? 120 : 30;
    if (total <= cap) for (long i = 0; i < total; ++i) at.push_back(i); else { for (long i = 0; i < 5; ++i) { at.push_back(i); at.push_back(total - 1 - i); } while (long(at.size()) < cap) at.push_back(long(c.rng.next() % uint64_t(total))); }
    { bool q; attempt(c, key, make, 0, 1, want, &q, true); }
    bool leaks = true;
    for (long n : at) {
        int len = c.rng.chance(1, 3) ? 1000000000 : c.rng.chance(1, 6) ? c.rng.range(2, 4) : 1; long h0 = heap_bytes(); int d0 = open_fds();
        if (!attempt(c, key, make, n, len, want, &f)) return false;
        if (leaks && (heap_bytes() > h0 || open_fds() > d0)) {                  // once may be a lazily created helper
            long h[4]; int d[4]; for (int k = 0; k < 4; ++k) { bool q; attempt(c, key, make, n, len, want, &q, true); h[k] = heap_bytes(); d[k] = open_fds(); }
            c.count("leak_suspicions");
            if (d[1] > d[0] && d[2] > d[1] && d[3] > d[2]) { c.failf(key + ":leak", "request %ld refused: a descriptor is left open each time", n); return false; }
            if (h[1] > h[0] && h[2] > h[1] && h[3] > h[2]) { c.failf(key + ":leak", "request %ld refused: %ld bytes are left behind each time", n, h[3] - h[2]); return false; }
        }
        c.count("leak_checks");
    }
    c.count("scenario_" + key); return true;
}

static Tensor filled(Rng& r, const Shape& s, int mode = SGN) { Tensor t(s); fill(r, t.data(), t.total(), mode); return t; }
struct Bits { std::vector<std::pair<Tensor, std::vector<uint32_t>>> v; void add(const Tensor& t) { v.push_back({t, bitsof(t)}); } bool same() const { for (auto& p : v) if (!samebits(p.first, p.second)) return false; return true; } void restore() { for (auto& p : v) if (!p.second.empty()) memcpy(p.first.data(), p.second.data(), p.second.size() * 4); } };
static std::string tensor_problem(const Tensor& t) {
    size_t n = t.shape().empty() ? t.total() : prod(t.shape()); if (t.total() != n) return "total " + std::to_string(t.total()) + " of shape " + str(t.shape());
    if (t.strides().size() != t.shape().size()) return "strides of another rank";
    size_t s = 1; for (size_t i = t.shape().size(); i-- > 0;) { if (size_t(t.strides()[i]) != s) return "wrong strides"; s *= size_t(t.shape()[i]); }
    if (t.total() && !t.data()) return "no data"; volatile float x = 0; for (size_t i = 0; i < t.total(); ++i) x = t.data()[i]; (void)x; return "";
}

static void layer_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; int t = int(idx % NLT); Spec s; Shape in; GenOpt o; o.cap4 = 7; o.cap2 = 20; o.batch = 5; gen_layer(r, t, s, in, o); if (t == DROPOUT) s.p = 0; bool big = r.chance(1, 12) && (t != LINEAR || omp_get_max_threads() == 1);   // see probe()
    if (big && t == LINEAR) { in = {r.range(100, 300), r.range(100, 400)}; s.units = r.range(50, 300); } else if (big && t == CONV) { in = {2, r.range(8, 24), r.range(10, 30), r.range(10, 30)}; s.units = r.range(8, 32); s.k = {3, 3}; s.pad = {1, 1}; }
    std::vector<Shape> sh{in}; bool change = t != DROPOUT && r.chance(2, 3); if (change) { Shape q = in; q[0] = r.range(1, 9); if (is4d(s) && r.chance(1, 2)) { q[2] += r.range(0, 5); q[3] += r.range(0, 5); } sh.push_back(q); }
    if (sh.size() == 2 && r.chance(1, 2) && !(is4d(s) && (sh[1][2] != in[2] || sh[1][3] != in[3]))) std::swap(sh[0], sh[1]);
    const uint64_t seed = r.next(); bool train = r.chance(2, 3), what = r.chance(1, 2);
    c.desc("layer-%s|%s %s -> %s %s", lt_name(t), s.str().c_str(), str(sh[0]).c_str(), str(sh.back()).c_str(), what ? "forward" : "passes");
    struct All { Inst I; std::vector<GT> x, gx; GT y, gy; std::vector<Tensor> X, GX; Bits state; Tensor y0, gy0; };
    if (monitor(c, std::string("layer-") + lt_name(t), [&]() -> Sc {
        auto a = std::make_shared<All>(); Rng q(seed); a->I = Inst(s, in); randomize(q, a->I, SGN); for (auto& kv : a->I.info.impl().buffers) { Tensor b = kv.second; fill(q, b.data(), b.total(), POS); }
        if (t == DROPOUT) { Tensor m = a->I.param("mask"); std::fill_n(m.data(), m.total(), 0.5f); }
        auto tensors = [&](const Shape& z) { a->x = std::vector<GT>(size_t(n_in(s))); a->gx = std::vector<GT>(size_t(n_in(s))); a->X.clear(); a->GX.clear(); for (size_t i = 0; i < a->x.size(); ++i) { a->x[i].make(q, z); fill(q, a->x[i].p(), a->x[i].n, SGN); a->gx[i].make(q, z); std::fill_n(a->gx[i].p(), a->gx[i].n, 0.f); a->X.push_back(a->x[i].t); a->GX.push_back(a->gx[i].t); } a->y.make(q, ref_shape(s, z)); a->gy.make(q, ref_shape(s, z)); fill(q, a->gy.p(), a->gy.n, SGN); };
        a->I.train(train);
        if (change) { tensors(sh[0]); a->I.forward(a->X, a->y.t); a->I.backward(a->X, a->y.t, a->gy.t, a->GX); a->y0 = Tensor(a->y.t.shape()); a->gy0 = filled(q, a->y.t.shape()); }
        tensors(sh.back()); for (auto& v : a->x) v.snapshot(); a->gy.snapshot(); a->y.poison();
        for (auto& kv : a->I.info.impl().params) if (kv.first != "mask") a->state.add(kv.second.data()); for (auto& kv : a->I.info.impl().buffers) a->state.add(kv.second);
        All* p = a.get(); Shape first = sh[0];
        Sc z; z.keep = a; z.act = [p, what] { p->I.forward(p->X, p->y.t); if (!what) p->I.backward(p->X, p->y.t, p->gy.t, p->GX); };
        z.result = [p, t, what] { std::string w = hexs(p->y.t); if (what) return w; for (auto& g : p->GX) w += hexs(g); std::map<std::string, std::string> m; for (auto& kv : p->I.info.impl().params) if (kv.first != "mask") m[kv.first] = hexs(kv.second.grad()); for (auto& kv : m) w += kv.second; return w; };
        z.check = [p]() -> std::string { for (auto& v : p->x) { if (!v.unchanged()) return "an input was modified"; if (!v.canaries()) return "memory next to an input was written"; } for (auto& v : p->gx) if (!v.canaries()) return "memory next to an input gradient was written"; if (!p->gy.unchanged()) return "the output gradient was modified"; if (!p->y.canaries() || !p->gy.canaries()) return "memory next to the output was written"; return ""; };
        z.after = [p, change, first] { throws([&] { p->I.backward(p->X, p->y.t, p->gy.t, p->GX); }); if (change) { std::vector<Tensor> X0, G0; for (size_t i = 0; i < p->X.size(); ++i) { X0.push_back(Tensor::zeros(first)); G0.push_back(Tensor::zeros(first)); } throws([&] { p->I.backward(X0, p->y0, p->gy0, G0); }); } };
        z.reset = [p] { p->state.restore(); for (auto& g : p->gx) std::fill_n(g.p(), g.n, 0.f); p->y.poison(); };
        return z;
    })) c.count("layers");
}
static void tensor_case(Ctx& c) {
    Rng& r = c.rng; auto shape = [&] { Shape s; for (int k = r.range(1, 4); k-- > 0;) s.push_back(r.range(r.chance(1, 10) ? 0 : 1, 8)); return s; }; Shape a = shape(), b = shape(); int how = r.range(0, 8); if (how == 1) { b = a; std::reverse(b.begin(), b.end()); if (r.chance(1, 2)) b = {int(prod(a))}; if (r.chance(1, 3)) b.insert(b.begin(), {1, 1, 1, 1}); }
    static const char* hn[] = {"allocate", "reshape", "construct", "zeros", "constant", "uniform", "xavier", "copy", "print"}; const uint64_t seed = r.next(); bool view = r.chance(1, 4), empty = how == 0 && r.chance(1, 4); if (view) how = r.of({0, 1, 7}); if (view || how == 7) for (int& x : a) x = std::max(x, 1); if (how == 1 && view && prod(a) != prod(b)) b = {int(prod(a))};
    c.desc("tensor-%s|%s -> %s%s%s", hn[how], str(a).c_str(), str(b).c_str(), view ? " view" : "", empty ? " empty" : ""); c.count(std::string("tensor_") + hn[how]);
    struct All { Tensor t, h, o, d; std::vector<float> mem; std::vector<uint32_t> was; Shape sh; dw::Strides st; const float* at; size_t n; std::string text; bool done = false; };
    monitor(c, "tensor", [&]() -> Sc {
        auto p = std::make_shared<All>(); Rng q(seed); if (view) { p->mem.resize(prod(a)); p->t = Tensor(a, p->mem.data()); } else if (!empty) p->t = Tensor(a); fill(q, p->t.data(), p->t.total(), INTS); p->h = p->t; p->d = Tensor(a); p->was = bitsof(p->t); p->sh = p->t.shape(); p->st = p->t.strides(); p->at = p->t.data(); p->n = p->t.total();
        All* z = p.get(); Sc s; s.keep = p;
        s.act = [z, how, a, b] { z->done = false; switch (how) { case 0: z->t.allocate(b); break; case 1: z->t.reshape(b); break; case 2: z->o = Tensor(b); break; case 3: z->o = Tensor::zeros(b); break; case 4: z->o = Tensor::constant(b, 2.5f); break; case 5: z->o = Tensor::uniform(b, 1, 2); break; case 6: z->o = Tensor::xavierUniform(b); break; case 7: z->t.copyTo(z->d); break; default: { std::ostringstream o; o.exceptions(std::ios::badbit); o << z->t; z->text = o.str(); } } z->done = true; };
        s.result = [z, how] { const Tensor& x = how < 2 ? z->t : how < 7 ? z->o : z->d; std::string w = how == 8 ? z->text : str(x.shape()); if (how == 1 || how == 3 || how == 4 || how == 7) w += hexs(x); if (how == 5 || how == 6) for (size_t i = 0; i < x.total(); ++i) w += how == 5 ? (x.data()[i] >= 1 && x.data()[i] <= 2 ? "+" : "-") : (std::fabs(x.data()[i]) <= 3 ? "+" : "-"); if (how < 2 && (z->h.data() != z->t.data() || z->h.shape() != z->t.shape())) w += "handles differ"; return w; };
        s.check = [z, how]() -> std::string { std::string w = tensor_problem(z->t); if (w.empty()) w = tensor_problem(z->o); if (w.empty()) w = tensor_problem(z->d); if (!w.empty()) return w; if (how < 2 && z->done) return ""; if (z->t.shape() != z->sh || z->t.strides() != z->st || z->t.data() != z->at || z->t.total() != z->n || !samebits(z->t, z->was) || z->h.data() != z->at) return "the tensor is not as it was"; if (how >= 2 && how < 7 && !z->done && z->o.total()) return "the destination is not as it was"; return ""; };
        return s;
    });
}
static std::vector<Tensor> tensors(Rng& r, const Net& n, const std::vector<int>& ids) { std::vector<Tensor> v; for (int i : ids) v.push_back(filled(r, n.shape[size_t(i)])); return v; }
static void model_case(Ctx& c) {
    Rng& r = c.rng; NetOpt o; o.max_ops = 6; o.batch = 4; o.hw = 5; o.dropout = false; uint64_t ns = r.next(); const uint64_t seed = r.next(); int how = r.range(0, 6); static const char* hn[] = {"describe", "construct", "compile", "forward", "training", "rebuild", "queries"};
    { Rng q(ns); c.desc("model-%s|%s", hn[how], gen_net(q, o).str().c_str()); } c.count(std::string("model_") + hn[how]);
    struct All { Net n; std::unique_ptr<dw::Model> m, m2; std::vector<Tensor> x, y, g; Bits in, state, params; std::string text, ref, bad; }; const bool again = how == 2 && (seed & 2); if (again) c.count("model_recompile");
    monitor(c, std::string("model-") + hn[how], [&]() -> Sc {
        auto a = std::make_shared<All>(); Rng q(ns), z(seed); if (how != 0) { a->n = gen_net(q, o); net_randomize(z, a->n); }
        if (how >= 2) { a->m.reset(new dw::Model(a->n.model())); if (how >= 3) a->m->compile(); a->x = tensors(z, a->n, a->n.ins); a->y = tensors(z, a->n, a->n.outs); a->g = tensors(z, a->n, a->n.outs); for (auto& t : a->x) a->in.add(t); for (auto& t : a->g) a->in.add(t); for (auto& kv : a->m->state()) a->state.add(kv.second); for (auto& kv : a->m->params()) a->params.add(kv.second.data()); }
        All* p = a.get(); Sc s; s.keep = a; bool tr = seed & 1;
        auto run = [p](dw::Model& m) { for (auto& t : p->y) std::fill_n(t.data(), t.total(), 0.f); m.forward(p->x, p->y); std::string w; for (auto& t : p->y) w += hexs(t); return w; };
        switch (how) {
            case 0: { NetOpt oo = o; uint64_t nss = ns; s.act = [p, oo, nss] { Rng z(nss); p->n = Net(); Net n = gen_net(z, oo); p->n = n; }; s.result = [p, run] { net_randomize(*std::make_unique<Rng>(5), p->n); std::string w = p->n.str(); dw::Model m = p->n.model(); m.compile(); Rng q(7); p->x = tensors(q, p->n, p->n.ins); p->y = tensors(q, p->n, p->n.outs); return w + run(m); }; break; }
            case 1: s.act = [p] { p->m.reset(); dw::Model m = p->n.model(); p->m.reset(new dw::Model(m)); }; s.result = [p, run] { p->m->compile(); Rng q(7); p->x = tensors(q, p->n, p->n.ins); p->y = tensors(q, p->n, p->n.outs); Arch w = arch(p->m->cfg()); std::string t; for (auto& kv : w.ops) t += kv.first + kv.second; for (auto& x : w.problems) t += x; return t + run(*p->m); }; break;
            case 2: if (again) { p->m->compile(); p->m->train(false); p->ref = run(*p->m); p->m->train(true); } s.act = [p] { p->m->compile(); }; s.result = [p, run] { return run(*p->m); }; break;
            case 3: s.act = [p, tr] { p->m->train(tr); p->m->forward(p->x, p->y); }; s.result = [p] { std::string w; for (auto& t : p->y) w += hexs(t); return w; }; break;
            case 4: s.act = [p] { p->m->train(true); p->m->forward(p->x, p->y); p->m->backward(p->x, p->y, p->g); }; s.result = [p] { std::string w; for (auto& t : p->y) w += hexs(t); std::map<std::string, std::string> m; for (auto& kv : p->m->params()) m[kv.first] = hexs(kv.second.grad()); for (auto& kv : m) w += kv.first + kv.second; return w; }; break;
            case 5: s.act = [p] { p->m2.reset(); dw::Model m = dw::Model::Build(p->m->cfg()); p->m2.reset(new dw::Model(m)); }; s.result = [p, run] { Arch w = arch(p->m2->cfg()); std::string t; for (auto& kv : w.ops) t += kv.first + kv.second; for (auto& kv : p->m2->state()) { Tensor d = kv.second; p->m->state().at(kv.first).copyTo(d); } p->m2->compile(); return t + run(*p->m2); }; break;
            default: s.act = [p] { p->text.clear(); std::string w; for (auto& l : p->m->layers()) { w += l.name() + l.type(); auto q = p->m->getLayer(l.name()); std::vector<Tensor> v; for (auto& kv : q.params()) v.push_back(kv.second.data()); w += std::to_string(v.size() + q.inputs().size() + q.outputs().size()); } auto cfg = p->m->cfg(); auto st = p->m->state(); auto pm = p->m->params(); auto in = p->m->inputs(); w += std::to_string(cfg.sorted_ops.size() + st.size() + pm.size() + in.size()); p->text = w; }; s.result = [p, run] { return p->text + run(*p->m); };
        }
        s.check = [p, how]() -> std::string { if (!p->bad.empty()) return p->bad; if (!p->in.same()) return "an input or an output gradient was modified"; if (!p->params.same()) return "a parameter was modified"; if (how != 3 && how != 4 && !p->state.same()) return "the state was modified"; for (auto& t : p->y) { std::string w = tensor_problem(t); if (!w.empty()) return w; } return ""; };
        s.reset = [p] { p->state.restore(); };
        if (again) s.after = [p, run] { try { p->m->train(false); if (run(*p->m) != p->ref) p->bad = "the model compiled before gives another result"; p->m->train(true); } catch (const std::exception&) { p->bad = "the model compiled before cannot be run any more"; } };
        if (how >= 3) s.after = [p] { throws([&] { p->m->backward(p->x, p->y, p->g); }); };
        return s;
    });
}
// An operation whose application failed is applied again.
template <class Op> static void apply_one(Ctx& c, const char* name, std::function<std::shared_ptr<Op>()> mk, const Shape& in, int prior) {
    c.desc("apply-%s|%s %d", name, str(in).c_str(), prior); c.count(std::string("apply_") + name);
    struct All { std::shared_ptr<Op> op; Placeholder x, y; Bits first; };
    monitor(c, std::string("apply-") + name, [&]() -> Sc {
        auto a = std::make_shared<All>(); All* p = a.get(); Sc s; s.keep = a; p->op = mk(); p->x = Placeholder(in); if (prior) { Placeholder z(in), w = (*p->op)(z); for (auto& kv : p->op->m_info.impl().params) p->first.add(kv.second.data()); }
        s.act = [p] { p->y = (*p->op)(p->x); };
        s.result = [p, in] {
            dw::Model m(p->x, p->y); std::map<std::string, Tensor> st; for (auto& kv : m.state()) st.emplace(kv.first, kv.second); std::string w; Rng q(5);
            for (auto& kv : st) { w += kv.first + str(kv.second.shape()); if (kv.second.total()) fill(q, kv.second.data(), kv.second.total(), kv.first.find("var") != std::string::npos ? POS : SGN); }
            bool drop = p->op->m_info.type() == "Dropout"; for (auto& kv : m.params()) { w += kv.first + str(kv.second.grad().shape()) + (kv.second.is_trainable() ? "t" : "f"); if (drop) { Tensor t = kv.second.data(); std::fill_n(t.data(), t.total(), 0.5f); } }
            m.train(!drop); m.compile(); Tensor X = filled(q, in), y = Tensor::zeros(m.outputs()[0].shape()), g = filled(q, y.shape()); m.forward(X, y); m.backward(X, y, g); w += hexs(y); if (!drop) { std::map<std::string, Tensor> gr; for (auto& kv : m.params()) gr.emplace(kv.first, kv.second.grad()); for (auto& kv : gr) w += hexs(kv.second); } return w;
        };
        s.check = [p]() -> std::string { return p->first.same() ? "" : "a parameter of an earlier application was modified"; };
        return s;
    });
}
static void apply_case(Ctx& c) {
    Rng& r = c.rng; int u = r.range(1, 6), prior = r.range(0, 2) == 0; Shape s2{r.range(1, 4), r.range(1, 6)}, s4{r.range(1, 3), r.range(1, 3), r.range(3, 6), r.range(3, 6)}; std::string n = r.chance(1, 2) ? "op" : "";
    switch (r.range(0, 5)) {
        case 0: return apply_one<dw::Linear>(c, "Linear", [=] { return std::make_shared<dw::Linear>(u, n); }, s2, prior);
        case 1: return apply_one<dw::Convolution>(c, "Convolution", [=] { return std::make_shared<dw::Convolution>(u, A2{2, 3}, A2{1, 0}, A2{1, 1}, n); }, s4, prior);
        case 2: return apply_one<dw::BatchNorm1D>(c, "BatchNorm1D", [=] { return std::make_shared<dw::BatchNorm1D>(0.1f, 0.1f, n); }, s2, prior);
        case 3: return apply_one<dw::BatchNorm2D>(c, "BatchNorm2D", [=] { return std::make_shared<dw::BatchNorm2D>(0.1f, 0.1f, n); }, s4, prior);
        case 4: return apply_one<dw::Dropout>(c, "Dropout", [=] { return std::make_shared<dw::Dropout>(0.5f, n); }, s2, prior);
        default: return apply_one<dw::ELU>(c, "ELU", [=] { return std::make_shared<dw::ELU>(0.5f, n); }, s4, prior);
    }
}
static void training_case(Ctx& c) {
    Rng& r = c.rng; int how = r.range(0, 3); const uint64_t seed = r.next(); static const char* hn[] = {"loss", "accuracy", "optimizer", "loader"}; int b = r.range(1, r.chance(1, 6) ? 300 : 8), k = r.range(1, 9), kind = r.range(0, 2), n = r.range(1, 20), bs = r.range(1, std::min(n, 6)); bool sh = r.chance(1, 2), given = r.chance(1, 2);
    c.desc("%s|b=%d k=%d kind=%d n=%d bs=%d %d%d", hn[how], b, k, kind, n, bs, int(sh), int(given));
    struct All { GT p, t, g, h; dw::loss::CrossEntropyLoss L; float v = 0; dw::ParamMap pm; std::unique_ptr<OptReal> opt; Bits in, frozen; std::vector<Tensor> grads; std::shared_ptr<LogDataset> ds; std::unique_ptr<dw::DataLoader> dl; Tensor X, y; bool ok = false; std::string text; };
    monitor(c, hn[how], [&]() -> Sc {
        auto a = std::make_shared<All>(); Rng q(seed); All* p = a.get(); Sc s; s.keep = a;
        if (how <= 1) {
            p->p.make(q, {b, k}); p->t.make(q, {b, 1}); p->g.make(q, {b, k}); p->h.make(q, {b, k}); for (size_t i = 0; i < p->p.n; ++i) p->p.p()[i] = float(q.real(0.05, 1)); std::fill_n(p->h.p(), p->h.n, 0.f); for (int i = 0; i < b; ++i) { int l = q.range(0, k - 1); p->t.p()[i] = float(l); p->h.p()[i * k + l] = 1.f; } p->p.snapshot(); p->t.snapshot(); p->h.snapshot();
            if (how == 0 && seed % 3) { int b0 = q.range(1, b); Tensor P = Tensor::constant({b0, k}, 0.5f), T0 = Tensor::zeros({b0, 1}); p->L.forward(P, T0); }
            if (how == 0) { s.act = [p] { p->v = p->L.forward(p->p.t, p->t.t); p->L.backward(p->p.t, p->t.t, p->g.t); }; s.result = [p] { return std::to_string(bits(p->v)) + hexs(p->g.t); }; }
            else { s.act = [p] { p->v = dw::metric::accuracy(p->p.t, p->t.t); p->v += 1000 * dw::metric::accuracyOneHot(p->p.t, p->h.t); }; s.result = [p] { return std::to_string(bits(p->v)); }; }
            s.check = [p]() -> std::string { if (!p->p.unchanged() || !p->t.unchanged() || !p->h.unchanged()) return "predictions or labels were modified"; if (!p->p.canaries() || !p->t.canaries() || !p->g.canaries() || !p->h.canaries()) return "memory next to a tensor was written"; return ""; };
        } else if (how == 2) {
            for (int i = 0; i < k; ++i) { Tensor t = filled(q, q.chance(1, 2) ? Shape{q.range(1, 9)} : Shape{q.range(1, 4), q.range(1, 4)}); dw::Parameter x(std::move(t), true); Tensor g = x.grad(); fill(q, g.data(), g.total(), SGN); p->in.add(g); if (q.chance(1, 4)) { x.train(false); p->frozen.add(x.data()); } p->pm.emplace("p" + std::to_string(i), x); }
            bool create = seed & 2; if (!create) p->opt.reset(new OptReal(kind, p->pm, 0.1f, 0.5f, {0.5f, 0.9f}, 1e-3f, 0, false)); int kd = kind;
            if (create) { s.act = [p, kd] { p->opt.reset(); p->opt.reset(new OptReal(kd, p->pm, 0.1f, 0.5f, {0.5f, 0.9f}, 1e-3f, 0, false)); }; s.result = [p] { p->opt->step(); std::map<std::string, std::string> m; for (auto& kv : p->pm) m[kv.first] = hexs(kv.second.data()); std::string w; for (auto& kv : m) w += kv.first + kv.second; return w; }; }
            else { s.act = [p] { p->text.clear(); p->opt->step(); }; s.result = [] { return std::string("stepped"); }; }
            s.check = [p]() -> std::string { if (!p->in.same()) return "a gradient was modified"; if (!p->frozen.same()) return "a frozen parameter was modified"; for (auto& kv : p->pm) for (size_t i = 0; i < kv.second.data().total(); ++i) if (!(std::fabs(kv.second.data().data()[i]) <= 3)) return "a parameter has an impossible value"; return ""; };
        } else {
            p->ds = std::make_shared<LogDataset>(size_t(n), Shape{q.range(1, 4), q.range(1, 3)}, Shape{1}); p->ds->log.reserve(4096); p->dl.reset(new dw::DataLoader(p->ds, bs, sh)); int pre = q.range(0, n / bs); while (pre-- > 0) { Tensor X, y; p->dl->pull(X, y); } if (given) { p->X = Tensor(with_batch(bs, p->ds->xs)); p->y = Tensor(with_batch(bs, p->ds->ys)); }
            s.act = [p] { p->ok = p->dl->pull(p->X, p->y); };
            s.result = [p, sh, bs, n] { std::string w = p->ok ? "batch" : "end"; if (p->ok && !sh) w += hexs(p->X) + hexs(p->y); if (p->ok && sh) for (int r = 0; r < bs; ++r) { bool any = false; for (int i = 0; i < n; ++i) any |= holds(*p->ds, p->X, p->y, r, i); w += any ? "+" : "-"; } int more = 0; Tensor X, y; while (p->dl->pull(X, y)) ++more; w += " then " + std::to_string(more); while (p->dl->pull(X, y)) ++more; return w + " then " + std::to_string(more); };
            s.check = [p]() -> std::string { std::string w = p->ds->problem; if (w.empty()) w = tensor_problem(p->X); if (w.empty()) w = tensor_problem(p->y); return w; };
        }
        return s;
    });
}
static void image_case(Ctx& c) {
    Rng& r = c.rng; Img im = make_image(r, 24); std::string p = c.work + "/i" + ext_of(r, im.png); put_file(p, im.file); bool into = r.chance(1, 2); int bad = r.range(0, 4); std::string q = c.work + "/b" + ext_of(r, im.png); if (bad == 0) { Bytes cut(im.file.begin(), im.file.begin() + long(r.next() % im.file.size())); put_file(q, cut); }
    c.desc("image|%s%s%s", im.d.c_str(), into ? " into" : "", bad == 0 ? " damaged" : ""); struct All { Tensor t; float* was = nullptr; std::string text; };
    monitor(c, "image", [&]() -> Sc {
        auto a = std::make_shared<All>(); All* z = a.get(); Sc s; s.keep = a; if (into) { z->t = Tensor::zeros({im.h, im.w, im.ch}); z->was = z->t.data(); }
        if (bad == 0) { s.act = [&, z] { z->text.clear(); try { Tensor t = dw::io::ReadImage(q); z->text = "accepted" + hexs(t); } catch (const dw::utils::DeepWorksException& e) { if (g_oom_on && g_oom_fired) throw; z->text = "rejected"; } }; s.result = [z] { return z->text; }; }
        else { s.act = [&, z] { if (into) dw::io::ReadImage(p, z->t); else { z->t = Tensor(); z->t = dw::io::ReadImage(p); } }; s.result = [z] { return str(z->t.shape()) + hexs(z->t); }; }
        s.check = [z, into]() -> std::string { if (into && z->t.data() != z->was) return "the destination was replaced"; return tensor_problem(z->t); };
        return s;
    });
    unlink(p.c_str()); unlink(q.c_str());
}
static void file_case(Ctx& c) {
    Rng& r = c.rng; NetOpt o; o.max_ops = 5; o.batch = 3; o.hw = 4; uint64_t ns = r.next(); const uint64_t seed = r.next(); int how = r.range(0, 6); static const char* hn[] = {"save", "load", "save-state", "load-state", "save-cfg", "load-cfg", "save-dot"}; { Rng q(ns); c.desc("file-%s|%s", hn[how], gen_net(q, o).str().c_str()); } c.count(std::string("file_") + hn[how]);
    std::string f = c.work + "/m.bin"; { Rng q(ns), z(seed); Net n = gen_net(q, o); net_randomize(z, n); dw::Model m = n.model(); if (how == 1) dw::save(m, f); if (how == 3) dw::save_state(m.state(), f); if (how == 5) dw::save_cfg(m.cfg(), f); } std::string content = how == 1 || how == 3 || how == 5 ? slurp(f) : "";
    struct All { Net n; std::unique_ptr<dw::Model> m, l; dw::Model::Config cfg; Bits state; };
    auto text = [](const dw::Model::Config& cfg) { Arch w = arch(cfg); std::string t; for (auto& kv : w.ops) t += kv.first + kv.second; for (auto& x : w.in) t += x; for (auto& x : w.out) t += x; for (auto& x : w.problems) t += x; return t; };
    auto stext = [](const dw::Model::StateDict& st) { std::map<std::string, std::string> m; for (auto& kv : st) m[kv.first] = hexs(kv.second); std::string w; for (auto& kv : m) w += kv.first + kv.second; return w; };
    monitor(c, std::string("file-") + hn[how], [&]() -> Sc {
        auto a = std::make_shared<All>(); Rng q(ns), z(seed); a->n = gen_net(q, o); net_randomize(z, a->n); a->m.reset(new dw::Model(a->n.model())); All* p = a.get(); if (how == 3) for (auto& kv : p->m->state()) { Tensor t = kv.second; fill(z, t.data(), t.total(), INTS); } for (auto& kv : p->m->state()) p->state.add(kv.second); Sc s; s.keep = a; if (content.empty()) unlink(f.c_str());
        switch (how) {
            case 0: s.act = [p, &f] { dw::save(*p->m, f); }; s.result = [p, &f, text, stext] { dw::Model l = dw::load(f); return text(l.cfg()) + stext(l.state()); }; break;
            case 1: s.act = [p, &f] { p->l.reset(); dw::Model m = dw::load(f); p->l.reset(new dw::Model(m)); }; s.result = [p, text, stext] { return text(p->l->cfg()) + stext(p->l->state()); }; break;
            case 2: s.act = [p, &f] { dw::save_state(p->m->state(), f); }; s.result = [p, &f, stext] { dw::Model l = p->n.model(); for (auto& kv : l.state()) { Tensor t = kv.second; std::fill_n(t.data(), t.total(), 9.f); } dw::load_state(l.state(), f); std::string w = stext(l.state()); p->state.restore(); return w; }; break;
            case 3: s.act = [p, &f] { dw::load_state(p->m->state(), f); }; s.result = [p, stext] { return stext(p->m->state()); }; break;
            case 4: s.act = [p, &f] { dw::save_cfg(p->m->cfg(), f); }; s.result = [&f, text] { return text(dw::load_cfg(f)); }; break;
            case 5: s.act = [p, &f] { p->cfg = dw::load_cfg(f); }; s.result = [p, text] { return text(p->cfg); }; break;
            default: s.act = [p, &f] { dw::save_dot(p->m->cfg(), f); }; s.result = [&f] { std::string w = slurp(f); std::istringstream i(w); std::vector<std::string> l; std::string x; while (std::getline(i, x)) l.push_back(x); std::sort(l.begin(), l.end()); w.clear(); for (auto& y : l) w += y + "\n"; return w; };
        }
        s.check = [p, how, &content, &f]() -> std::string { if (how != 3 && !p->state.same()) return "the model's state was modified"; if (!content.empty() && slurp(f) != content) return "the file was modified"; return ""; };
        return s;
    });
    unlink(f.c_str());
}
static void misuse_case(Ctx& c) {                                               // a rejection that cannot be described
    Rng& r = c.rng; Shape s4{2, 3, 5, 6}, s2{4, 5}; Placeholder p4(s4), p2(s2); Tensor a({2, 3}), b({3, 3}), l({2, 1}); std::fill_n(a.data(), 6, 0.5f); std::fill_n(l.data(), 2, 9.f); std::fill_n(b.data(), 9, 1.f); dw::loss::CrossEntropyLoss L; std::string f = c.work + "/none";
    std::vector<std::pair<const char*, Act>> bad{{"Linear", [&] { dw::Linear(0, "l")(p2); }}, {"Convolution", [&] { dw::Convolution(2, {9, 9}, {0, 0}, {1, 1}, "c")(p4); }}, {"MaxPooling", [&] { dw::MaxPooling({2, 2}, {-1, 0}, {1, 1}, "m")(p4); }}, {"BatchNorm1D", [&] { dw::BatchNorm1D(1e-3f, 0.1f, "b")(p4); }}, {"Softmax", [&] { dw::Softmax("s")(p4); dw::Model m(p4, p4); }}, {"Add", [&] { dw::Add("a")(p2, p4); }},
        {"type", [&] { dw::make_layer("Nothing", "x", {}, {p2}); }}, {"attribute", [&] { dw::make_layer("Linear", "x", {}, {p2}); }}, {"operands", [&] { dw::make_layer("Add", "x", {}, {p2}); }}, {"names", [&] { Placeholder x(Shape{2, 2}); dw::Model m(x, dw::ReLU("a")(dw::ReLU("a")(x))); }}, {"compile", [&] { Placeholder x(Shape{2, 2}); dw::Model m(x, dw::ReLU("a")(x)); m.forward(a, b); }}, {"label", [&] { L.forward(a, l); }}, {"copy", [&] { a.copyTo(b); }}, {"reshape", [&] { a.reshape({7}); }}, {"negative", [&] { Tensor t({2, -1}); }}, {"image", [&] { dw::io::ReadImage(f + ".png"); }}, {"format", [&] { dw::io::ReadImage(f + ".txt"); }}, {"file", [&] { dw::load(f); }}, {"loader", [&] { dw::DataLoader d(nullptr, 1, false); }}, {"placeholder", [&] { Placeholder p; (void)p.shape(); }}};
    auto& [name, act] = r.pick(bad); const Act f2 = act; c.desc("misuse-%s|%llu", name, (unsigned long long)(r.next())); c.count(std::string("misuse_") + name);
    struct All { std::string text; };
    monitor(c, std::string("misuse-") + name, [&]() -> Sc { auto p = std::make_shared<All>(); All* z = p.get(); Sc s; s.keep = p; bool ask = r.chance(1, 2);
        s.act = [z, f2, ask] { z->text = "accepted"; try { f2(); } catch (const std::bad_alloc&) { throw; } catch (const std::exception& e) { if (ask || !g_oom_on || !g_oom_fired) { volatile size_t n = strlen(e.what()); (void)n; } z->text = "rejected"; } };
        s.result = [z] { return z->text; }; s.check = [&]() -> std::string { for (const Tensor* t : {&a, &b, &l}) { std::string w = tensor_problem(*t); if (!w.empty()) return w; } if (a.shape() != Shape{2, 3} || a.data()[0] != 0.5f || b.data()[8] != 1.f) return "a tensor was modified"; return ""; };
        return s; });
}
struct Linears { Inst I; std::vector<Tensor> X, GX; Tensor y, gy; void make(const Shape& in) { Spec s; s.t = LINEAR; s.units = 300; I = Inst(s, in); X = {Tensor::constant(in, 1.f)}; GX = {Tensor::zeros(in)}; y = Tensor::zeros({in[0], 300}); gy = Tensor::constant({in[0], 300}, 1.f); I.train(true); } void run() { I.forward(X, y); I.backward(X, y, gy, GX); } };
// The product of a large Linear on several threads, in a process of its own.
static void probe(Ctx& c) {
    c.desc("probe"); static const char* ENV = "DW_C44_PROBE";
    if (getenv(ENV)) {
        std::set_terminate([] { _exit(77); }); alarm(100); Linears L;
        const Shape in{300, 400}; for (long at = 0; at < 40; ++at) { L.make(in); Armed a(at, 1); try { L.run(); } catch (const std::exception&) {} }
        _exit(0);
    }
    pid_t pid = fork(); if (pid < 0) harness_error("fork");
    if (!pid) { setenv(ENV, "1", 1); setenv("OMP_NUM_THREADS", "2", 1); setenv("OMP_DYNAMIC", "false", 1); int n = open("/dev/null", O_RDWR); dup2(n, 1); dup2(n, 2); std::string o = c.work + "/probe.json", i = std::to_string(c.idx), s = std::to_string(c.seed); execl("/proc/self/exe", "probe", "--only", i.c_str(), "--seed", s.c_str(), "--out", o.c_str(), "--work", c.work.c_str(), "--verif", c.verif.c_str(), "--repo", c.repo.c_str(), (char*)nullptr); _exit(78); }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} c.count("probes");
    if (WIFEXITED(st) && WEXITSTATUS(st) == 78) harness_error("cannot run the probe");
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) c.fail("probe:parallel-product-out-of-memory", "Linear {300,400} on two threads: the process is terminated if a request for memory inside the product is refused");
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) c.count("probe_timeouts");
    else if (!WIFEXITED(st) || WEXITSTATUS(st)) c.failf("probe:crash", "Linear {300,400} on two threads, out of memory: status %x", st);
}
// Extents whose intermediate buffers do not fit into memory, and whose number of elements does not fit into 32 bits.
static void oversized_case(Ctx& c) {
    Rng& r = c.rng; bool conv = r.chance(1, 2); int kh, kw, h, w, b; do { kh = r.range(100, 400); kw = r.range(100, 400); h = kh + r.range(100, 400); w = kw + r.range(100, 400); b = conv ? 1 : r.range(1, 3); } while (double(kh) * kw * (h - kh + 1) * (w - kw + 1) * b < 4.4e9);
    Shape in{b, 1, h, w}; c.desc("oversized|%s %dx%d of %s", conv ? "conv" : "pool", kh, kw, str(in).c_str());
    Placeholder x(in); dw::Model m(x, conv ? dw::Convolution(1, {kh, kw}, {0, 0}, {1, 1}, "l")(x) : dw::MaxPooling({kh, kw}, {0, 0}, {1, 1}, "l")(x)); m.compile();
    Tensor t = Tensor::zeros(in), y = Tensor::zeros(m.outputs()[0].shape()); extern size_t g_oom_cap; size_t was = g_oom_cap; bool threw = false;
    { Armed a(-1, 1); g_oom_cap = size_t(1) << 30; try { m.forward(t, y); } catch (const std::exception&) { threw = true; } g_oom_cap = was; }
    c.count("oversized"); c.count(threw ? "oversized_reported" : "oversized_computed");
    if (!threw) for (size_t i = 0; i < y.total(); ++i) if (!std::isfinite(y.data()[i])) { c.fail("oversized:result", "no result and no exception"); return; }
    t = Tensor(); y = Tensor();
}
void run_case(Ctx& c, uint64_t idx) {
    if (idx == 7) return probe(c); if (idx % 600 == 31 || idx % 600 == 43) return oversized_case(c);
    switch (idx % 12) {
        case 0: case 1: case 2: case 3: return layer_case(c, idx / 12 * 4 + idx % 12);
        case 4: return tensor_case(c);
        case 5: if (idx % 24 < 12) return apply_case(c); return model_case(c);
        case 6: case 7: return model_case(c);
        case 8: return training_case(c);
        case 9: return image_case(c);
        case 10: return file_case(c);
        default: return misuse_case(c);
    }
}
