// The work of every operation - edges of the control flow graph executed (compiler instrumentation) and bytes requested
// from the allocator - grows at most in proportion to its data, and does not grow from step to step.
#include "ser.hpp"
#include "images.hpp"
#include "loader.hpp"
#include <deepworks/loss.hpp>
#include <deepworks/metrics.hpp>
#include <deepworks/optimizer.hpp>
#include <cmath>
const char* PROP = "C41";
uint64_t ncases(const Ctx& c) { return c.thorough ? 400000 : 16000; }
static uint64_t g_edges, g_bytes;
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() { ++g_edges; }
extern "C" void* __libc_malloc(size_t); extern "C" void* __libc_calloc(size_t, size_t); extern "C" void* __libc_realloc(void*, size_t);
extern "C" __attribute__((no_sanitize_coverage)) void* malloc(size_t n) { g_bytes += n; return __libc_malloc(n); }
extern "C" __attribute__((no_sanitize_coverage)) void* calloc(size_t a, size_t b) { g_bytes += a * b; return __libc_calloc(a, b); }
extern "C" __attribute__((no_sanitize_coverage)) void* realloc(void* p, size_t n) { g_bytes += n; return __libc_realloc(p, n); }
// block moves count by length
#define NOCOV __attribute__((no_sanitize_coverage, optimize("no-tree-loop-distribute-patterns")))
extern "C" NOCOV void* memcpy(void* d, const void* s, size_t n) { g_edges += n / 32; void* r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
extern "C" NOCOV void* memmove(void* d, const void* s, size_t n) {
    g_edges += n / 32; void* r = d; if (static_cast<char*>(d) <= static_cast<const char*>(s) || static_cast<char*>(d) >= static_cast<const char*>(s) + n) asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    else { char* e = static_cast<char*>(d) + n - 1; const char* f = static_cast<const char*>(s) + n - 1; asm volatile("std\n\trep movsb\n\tcld" : "+D"(e), "+S"(f), "+c"(n) : : "memory"); } return r; }
extern "C" NOCOV void* memset(void* d, int v, size_t n) { g_edges += n / 32; void* r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); return r; }

struct W { double e = 0, b = 0; };
typedef std::vector<std::pair<std::string, W>> Ws;
struct Meter { Ws w; template <class F> void operator()(const std::string& n, F&& f) { uint64_t e = g_edges, b = g_bytes; f(); w.push_back({n, {double(g_edges - e), double(g_bytes - b)}}); } };
static void compare(Ctx& c, const std::string& key, const Ws& a, const Ws& b, double m) {
    if (a.size() != b.size()) harness_error("phases");
    for (size_t i = 0; i < a.size(); ++i) {
        double re = b[i].second.e / (m * a[i].second.e + 400), rb = b[i].second.b / (m * a[i].second.b + 4096); c.count("phases"); auto grp = key.substr(0, key.find(':')); c.maxi("growth_percent:" + grp, long(100 * re)); c.maxi("memory_percent:" + grp, long(100 * rb));
        if (getenv("C41_PRINT")) fprintf(stderr, "%s:%s m=%g edges %g -> %g (%.2f) bytes %g -> %g (%.2f)\n", key.c_str(), a[i].first.c_str(), m, a[i].second.e, b[i].second.e, re, a[i].second.b, b[i].second.b, rb);
        if (re > 2.5) c.failf(key + ":" + a[i].first + ":work", "%g times the data takes %.1f times the work (%.0f -> %.0f edges)", m, b[i].second.e / std::max(1.0, a[i].second.e), a[i].second.e, b[i].second.e);
        if (rb > 2.5) c.failf(key + ":" + a[i].first + ":memory", "%g times the data takes %.1f times the memory (%.0f -> %.0f bytes)", m, b[i].second.b / std::max(1.0, a[i].second.b), a[i].second.b, b[i].second.b);
    }
}
static void steady(Ctx& c, const std::string& key, const std::vector<W>& s) {       // repeated steps of the same size
    size_t n = s.size() / 4; W a, b; for (size_t i = 0; i < n; ++i) { a.e += s[n + i].e; a.b += s[n + i].b; b.e += s[s.size() - 1 - i].e; b.b += s[s.size() - 1 - i].b; }       // sums: a random number generator refills its state once in several hundred draws
    c.count("histories"); if (getenv("C41_PRINT")) fprintf(stderr, "%s steady edges %g -> %g bytes %g -> %g\n", key.c_str(), a.e, b.e, a.b, b.b);
    if (b.e > 1.5 * a.e + 400.0 * double(n) + 8000) c.failf(key + ":growing-work", "%zu steps take %.0f edges at first and %.0f later", n, a.e, b.e);
    if (b.b > 1.5 * a.b + 1024.0 * double(n)) c.failf(key + ":growing-memory", "%zu steps request %.0f bytes at first and %.0f later", n, a.b, b.b);
}
static void layer(Ctx& c, Rng& r, int t) {
    Spec s; s.t = t; s.alpha = 0.3f; s.p = 0.4f; s.name = "l"; Shape in; int axes; const int B = r.range(48, 80), M = 32;
    if (t == SOFTMAX || t == BN1) in = {r.range(2, 4), r.range(1, 4)}; else if (t == LINEAR) { in = {r.range(1, 4), r.range(1, 4)}; s.units = r.range(1, 4); }
    else if (is4d(s)) in = {r.range(1, 3), r.range(1, 3), r.range(2, 4), r.range(2, 4)}; else { in = {1}; int k = r.range(1, 4); in.resize(size_t(k)); for (auto& d : in) d = r.range(1, 3); }
    axes = int(in.size()) + (t == LINEAR || t == CONV ? 1 : 0) + (t == CONV || t == MAXPOOL ? 1 : 0); int a = r.range(0, axes - 1); double m = M; std::string ax = "axis" + std::to_string(a);
    if (t == CONV || t == MAXPOOL) { s.units = r.range(1, 3); for (size_t q = 0; q < 2; ++q) { s.k[q] = r.range(1, 2); s.pad[q] = r.range(0, s.k[q] - 1); s.st[q] = 1; } if (r.chance(1, 3)) s.st = {2, 2}; if (t == CONV && a == 4) ax = "units"; if (a == (t == CONV ? 5 : 4)) ax = "kernel"; }
    auto key = std::string(lt_name(t)) + ":" + ax; c.desc("%s|%s base=%s", key.c_str(), s.str().c_str(), str(in).c_str());
    auto go = [&](int size, bool big) {
        Spec q = s; Shape sh = in; (void)big; if (ax == "kernel") { sh[2] = 64; sh[3] = r.of({3}); q.pad = {0, 0}; q.st = {1, 1}; q.k = {size, 1}; } else if (a < int(in.size())) sh[size_t(a)] = size; else q.units = size;
        Meter w; std::unique_ptr<Inst> I; w("create", [&] { I.reset(new Inst(q, sh)); }); Rng f(7); std::vector<Tensor> x, gx; for (int i = 0; i < n_in(q); ++i) { Tensor v(sh); fill(f, v.data(), v.total(), SGN); x.push_back(v); gx.push_back(Tensor::zeros(sh)); }
        std::vector<Tensor> y{Tensor(I->out)}, gy{Tensor(I->out)}; fill(f, gy[0].data(), gy[0].total(), SGN);
        w("first-forward", [&] { I->l->forward(x, y); }); w("forward", [&] { I->l->forward(x, y); }); w("gradients", [&] { I->l->updateGradients(x, gy); }); w("first-backward", [&] { I->l->backward(x, y, gy, gx); }); w("backward", [&] { I->l->backward(x, y, gy, gx); });
        if (is_bn(q) || t == DROPOUT) { I->train(false); w("evaluation", [&] { I->l->forward(x, y); }); }
        return w.w;
    };
    Ws A, Z; if (ax == "kernel") { m = 8; A = go(4, false); Z = go(32, true); } else { A = go(B, false); Z = go(B * M, true); }
    compare(c, key, A, Z, m); c.count(std::string("layer_") + lt_name(t));
    if (r.chance(1, 4)) { Shape sh = in; Inst I(s, sh); Rng f(3); std::vector<Tensor> x, gx; for (int i = 0; i < n_in(s); ++i) { Tensor v(sh); fill(f, v.data(), v.total(), SGN); x.push_back(v); gx.push_back(Tensor::zeros(sh)); } std::vector<Tensor> y{Tensor(I.out)}, gy{Tensor::constant(I.out, 1)}; std::vector<W> ws;
        for (int k = 0; k < 48; ++k) { Meter w; w("step", [&] { I.l->forward(x, y); I.l->updateGradients(x, gy); I.l->backward(x, y, gy, gx); }); ws.push_back(w.w[0].second); } steady(c, lt_name(t), ws); }
}
static void loss(Ctx& c, Rng& r) {
    int o = r.range(1, 5), a = r.range(0, 1), B = r.range(48, 80); c.desc("loss:axis%d|other=%d base=%d", a, o, B);
    auto go = [&](int n) { Shape s = a ? Shape{o, n} : Shape{n, o}; Tensor p(s), t(Shape{s[0], 1}), g(s), oh = Tensor::zeros(s), t1(Shape{s[0]}); Rng f(5); fill(f, p.data(), p.total(), POS); for (int i = 0; i < s[0]; ++i) { int l = f.range(0, s[1] - 1); t.data()[i] = t1.data()[i] = float(l); oh.data()[i * s[1] + l] = 1; }
        Meter w; dw::loss::CrossEntropyLoss L; w("first-forward", [&] { L.forward(p, t); }); w("forward", [&] { L.forward(p, t); }); w("backward", [&] { L.backward(p, t, g); }); w("accuracy", [&] { dw::metric::accuracy(p, t1); }); w("accuracy-one-hot", [&] { dw::metric::accuracyOneHot(p, oh); }); return w.w; };
    auto A = go(B), Z = go(B * 32); compare(c, "loss:axis" + std::to_string(a), A, Z, 32); c.count("losses");
}
struct AnyOpt { std::unique_ptr<dw::optimizer::SGD> s; std::unique_ptr<dw::optimizer::SGDMomentum> m; std::unique_ptr<dw::optimizer::Adam> a; AnyOpt(int k, dw::ParamMap& p) { if (k == 0) s.reset(new dw::optimizer::SGD(p, 0.1f)); else if (k == 1) m.reset(new dw::optimizer::SGDMomentum(p, 0.1f)); else a.reset(new dw::optimizer::Adam(p, 0.1f)); } void step() { if (s) s->step(); else if (m) m->step(); else a->step(); } };
static void optimizer(Ctx& c, Rng& r) {
    int k = r.range(0, 2), a = r.range(0, 1), o = r.range(1, 4), B = r.range(48, 80); static const char* N[] = {"SGD", "SGDMomentum", "Adam"}; std::string key = std::string(N[k]) + (a ? ":parameters" : ":elements"); c.desc("%s|other=%d base=%d", key.c_str(), o, B);
    auto params = [&](int n) { dw::ParamMap pm; for (int i = 0; i < (a ? n : o); ++i) { Tensor t = Tensor::constant({a ? o : n}, 1.f); pm.emplace("layer" + std::to_string(i) + ".weight", dw::Parameter{Tensor(t)}); } for (auto& p : pm) std::fill_n(p.second.grad().data(), p.second.grad().total(), 0.5f); return pm; };
    auto go = [&](int n) { auto pm = params(n); Meter w; std::unique_ptr<AnyOpt> q; w("create", [&] { q.reset(new AnyOpt(k, pm)); }); w("first-step", [&] { q->step(); }); w("step", [&] { q->step(); }); return w.w; };
    auto A = go(B), Z = go(B * 32); compare(c, key, A, Z, 32);
    auto pm = params(3); AnyOpt q(k, pm); std::vector<W> ws; for (int i = 0; i < 256; ++i) { Meter w; w("step", [&] { q.step(); }); ws.push_back(w.w[0].second); } steady(c, N[k], ws); c.count("optimizers");
}
static void loader(Ctx& c, Rng& r) {
    int a = r.range(0, 2), b = r.range(1, 4), x = r.range(1, 3), B = r.range(48, 80); bool sh = a > 0 && r.chance(2, 3); /* a shuffled draw may look at the whole data set */ static const char* N[] = {"loader:samples", "loader:sample-size", "loader:batch"}; c.desc("%s|batch=%d sample=%d base=%d%s", N[a], b, x, B, sh ? " shuffled" : "");
    struct D : LogDataset { using LogDataset::LogDataset; __attribute__((no_sanitize_coverage)) void pull(int, Tensor& X, Tensor& y) override { X.data()[0] = 1; y.data()[0] = 2; } };
    auto go = [&](int n) { auto d = std::make_shared<D>(size_t(a == 0 ? n : a == 2 ? 4 * n : 12), Shape{a == 1 ? n : x}, Shape{1}); Tensor X, y; Meter w; std::unique_ptr<dw::DataLoader> l; w("create", [&] { l.reset(new dw::DataLoader(d, a == 2 ? n : b, sh)); }); for (const char* ph : {"first-epoch", "epoch", "next-epoch"}) w(ph, [&] { while (l->pull(X, y)); }); return w.w; };
    auto A = go(B), Z = go(B * 32); compare(c, N[a], A, Z, 32);
    auto d = std::make_shared<D>(size_t(20), Shape{2}, Shape{1}); dw::DataLoader l(d, b, sh); std::vector<W> ws; Tensor X, y; for (int i = 0; i < 200; ++i) { Meter w; w("epoch", [&] { while (l.pull(X, y)); }); ws.push_back(w.w[0].second); } steady(c, "loader", ws); c.count("loaders");
}
static void tensor(Ctx& c, Rng& r) {
    int rank = r.range(1, 5), a = r.range(0, rank - 1), B = r.range(48, 80); Shape s; for (int i = 0; i < rank; ++i) s.push_back(r.range(1, 2)); c.desc("tensor|rank=%d axis=%d base=%d", rank, a, B);
    auto go = [&](int n) { Shape q = s; q[size_t(a)] = n; Meter w; Tensor t, u(q), v; w("create", [&] { t = Tensor(q); }); w("zeros", [&] { t = Tensor::zeros(q); }); w("constant", [&] { v = Tensor::constant(q, 3.f); }); w("uniform", [&] { Tensor::uniform(q); }); w("xavier", [&] { Tensor::xavierUniform(q); }); w("copy", [&] { t.copyTo(u); }); w("print", [&] { std::ostringstream o; o << u; }); w("allocate", [&] { Tensor z; z.allocate(q); z.allocate(q); }); w("view", [&] { Tensor z(q, u.data()); z.reshape({int(z.total())}); }); return w.w; };
    auto A = go(B), Z = go(B * 32); compare(c, "tensor", A, Z, 32); c.count("tensors");
}
static void image(Ctx& c, Rng& r) {
    bool png = r.chance(1, 2); int ch = r.of({1, 3}); c.desc("image|%s channels=%d", png ? "png" : "jpeg", ch); int a = r.range(0, 1), o = r.range(3, 9), B = r.range(48, 80);
    auto go = [&](int n) { int w_ = a ? n : o, h_ = a ? o : n; Bytes px(size_t(w_) * size_t(h_) * size_t(ch)); for (auto& p : px) p = static_cast<unsigned char>(r.next()); std::string f = c.work + (png ? "/i.png" : "/i.jpg"); FILE* fp = fopen(f.c_str(), "wb"); if (!fp) harness_error("image");
        if (png) { png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr); png_infop i = png_create_info_struct(p); png_init_io(p, fp); png_set_IHDR(p, i, unsigned(w_), unsigned(h_), 8, ch == 3 ? PNG_COLOR_TYPE_RGB : PNG_COLOR_TYPE_GRAY, PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT); png_write_info(p, i); for (int y = 0; y < h_; ++y) png_write_row(p, &px[size_t(y) * size_t(w_) * size_t(ch)]); png_write_end(p, nullptr); png_destroy_write_struct(&p, &i); }
        else { jpeg_compress_struct j; jpeg_error_mgr e; j.err = jpeg_std_error(&e); jpeg_create_compress(&j); jpeg_stdio_dest(&j, fp); j.image_width = unsigned(w_); j.image_height = unsigned(h_); j.input_components = ch; j.in_color_space = ch == 3 ? JCS_RGB : JCS_GRAYSCALE; jpeg_set_defaults(&j); jpeg_start_compress(&j, TRUE); for (int y = 0; y < h_; ++y) { JSAMPROW row = &px[size_t(y) * size_t(w_) * size_t(ch)]; jpeg_write_scanlines(&j, &row, 1); } jpeg_finish_compress(&j); jpeg_destroy_compress(&j); }
        fclose(fp); Meter w; Tensor t; w("read", [&] { t = dw::io::ReadImage(f); }); w("read-into", [&] { dw::io::ReadImage(f, t); }); unlink(f.c_str()); return w.w; };
    auto A = go(B), Z = go(B * 16); compare(c, png ? "png" : "jpeg", A, Z, 16); c.count("images");
}
static Net chain(Rng& r, int kind, int n) {
    Net g; const int w = 3; auto op = [&](int t, std::vector<int> in) { Spec s; s.t = t; s.units = w; s.alpha = 0.3f; if (kind == 1) s.name = "n" + std::to_string(g.ops.size()); return g.add(s, in); };
    int x = g.data({2, w}, Placeholder(Shape{2, w}), -1); g.ins = {x};
    if (kind <= 1) for (int i = 0; i < n; ++i) { static const int T[] = {LINEAR, RELU, BN1, SIGMOID}; x = op(T[i % 4], {x}); }          // a chain, unnamed or named
    else if (kind == 2) for (int i = 0; i < n; ++i) x = op(ADD, {x, x});                                                              // every path is taken twice
    else if (kind == 3) for (int i = 0; i < n; ++i) { int a = op(RELU, {x}), b = op(LINEAR, {x}); x = op(ADD, {a, b}); }               // diamonds
    else if (kind == 4) { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(op(LINEAR, {g.ins[0]})); g.outs = v; (void)r; return g; }     // many consumers, many outputs
    else { int s = op(RELU, {x}); for (int i = 0; i < n; ++i) { int y = g.data({2, w}, Placeholder(Shape{2, w}), -1); g.ins.push_back(y); s = op(ADD, {s, y}); } x = s; }              // many inputs
    g.outs = {x}; return g;
}
static void model(Ctx& c, Rng& r) {
    int kind = r.range(0, 5), B = r.range(12, 20), M = 8; static const char* N[] = {"model:chain", "model:named-chain", "model:doubled", "model:diamonds", "model:fan", "model:inputs"}; c.desc("%s|base=%d", N[kind], B);
    auto go = [&](int n) {
        Net g; Meter w; std::unique_ptr<dw::Model> m; w("expression", [&] { g = chain(r, kind, n); });
        w("build", [&] { m.reset(new dw::Model(g.model())); }); w("compile", [&] { m->compile(); }); std::vector<Tensor> x, y, gy; for (int i : g.ins) x.push_back(Tensor::constant(g.shape[size_t(i)], 0.1f)); for (int i : g.outs) { y.push_back(Tensor(g.shape[size_t(i)])); gy.push_back(Tensor::constant(g.shape[size_t(i)], 1.f)); }
        w("forward", [&] { m->forward(x, y); }); w("backward", [&] { m->backward(x, y, gy); }); w("mode", [&] { m->train(false); m->train(true); }); w("evaluation", [&] { m->train(false); m->forward(x, y); });
        w("config", [&] { m->cfg(); });
        std::string f = c.work + "/m"; w("save", [&] { dw::save(*m, f); }); w("load", [&] { dw::Model l = dw::load(f); }); w("save-config", [&] { dw::save_cfg(m->cfg(), f); }); w("save-dot", [&] { dw::save_dot(m->cfg(), f); }); w("save-state", [&] { dw::save_state(m->state(), f); }); w("load-state", [&] { dw::Model::StateDict st = m->state(); dw::load_state(st, f); }); unlink(f.c_str()); w("destroy", [&] { m.reset(); g = Net(); }); return w.w; };
    auto A = go(B), Z = go(B * M); compare(c, N[kind], A, Z, M); c.count("models");
}
static void history(Ctx& c, Rng& r) {
    NetOpt o; o.max_ops = 6; o.batch = 3; o.hw = 4; Net n = gen_net(r, o); c.desc("history|%s", n.str().c_str()); dw::Model m = n.model(); m.compile(); dw::optimizer::Adam opt(m.params(), 0.01f); std::vector<Tensor> x, y, g; for (int i : n.ins) { Tensor t(n.shape[size_t(i)]); fill(r, t.data(), t.total(), SGN); x.push_back(t); } for (int i : n.outs) { y.push_back(Tensor(n.shape[size_t(i)])); g.push_back(Tensor::constant(n.shape[size_t(i)], 0.1f)); }
    std::vector<W> ws; for (int k = 0; k < 64; ++k) { Meter w; w("step", [&] { m.forward(x, y); m.backward(x, y, g); opt.step(); if (k % 2 == 0) { m.train(false); m.train(true); } }); ws.push_back(w.w[0].second); }
    for (size_t k = 0; k + 1 < ws.size(); k += 2) { ws[k].e += ws[k + 1].e; ws[k].b += ws[k + 1].b; ws[k / 2] = ws[k]; } ws.resize(32); steady(c, "training", ws); c.count("trainings");
    std::vector<W> rs; for (int k = 0; k < 32; ++k) { Meter w; w("recompile", [&] { m.compile(); }); rs.push_back(w.w[0].second); } steady(c, "compile", rs);
}
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; int k = int(idx % 20); if (k < NLT) return layer(c, r, k);
    switch (k) { case 13: return loss(c, r); case 14: return optimizer(c, r); case 15: return loader(c, r); case 16: return r.chance(1, 2) ? tensor(c, r) : image(c, r); case 17: case 18: return model(c, r); default: return history(c, r); }
}
