// Independent objects used from several threads of the user at once.
#include "ser.hpp"
#include "images.hpp"
#include "loader.hpp"
#include "optref.hpp"
#include <omp.h>
#include <thread>
#include <atomic>
#include <deepworks/loss.hpp>
#include <deepworks/metrics.hpp>
const char* PROP = "C43";
#if defined(__SANITIZE_THREAD__)
static const bool TS = true;
#else
static const bool TS = false;
#endif
uint64_t ncases(const Ctx& c) { return TS ? (c.thorough ? 8000 : 800) : (c.thorough ? 30000 : 2400); }

// A data set without any state of its own: may be shared by all threads.
struct Plain : dw::IDataset {
    size_t n; Shape xs, ys; uint32_t salt;
    Plain(size_t n_, Shape x, Shape y, uint32_t s) : n(n_), xs(std::move(x)), ys(std::move(y)), salt(s) {}
    float v(int i, size_t j) const { return float((uint32_t(i) * 2654435761u + uint32_t(j) * 40503u + salt) % 1000003u); }
    size_t size() override { return n; }
    OutShape shape() override { return {xs, ys}; }
    void pull(int i, Tensor& X, Tensor& y) override { for (size_t j = 0; j < X.total(); ++j) X.data()[j] = v(i, j); for (size_t j = 0; j < y.total(); ++j) y.data()[j] = float(i); }
};
// What the threads share, all of it read only.
struct Shared {
    std::string dir; std::vector<std::pair<std::string, Img>> images; std::vector<std::string> broken; std::shared_ptr<Plain> ds; Tensor x, lab, prob; std::vector<float> xv;
    std::unique_ptr<dw::Model> described; Arch described_arch; std::string model_file; Arch model_arch; std::map<std::string, std::vector<float>> model_state; int slow = 0;
};
struct Script {
    uint64_t seed = 1; int id = 0, ops = 4, team = 1; std::string dir; Shared* sh = nullptr; const std::vector<int>* kinds = nullptr;
    std::vector<std::string> said; std::vector<std::vector<float>> num; std::string problem; std::vector<float> draws; std::map<std::string, long> n; uint64_t dropped = 0, drop_total = 0;
    void bad(const std::string& s) { if (problem.empty()) problem = s; }
    template <class F> void reject(const std::string& what, F&& f) { std::string m; if (throws(f, &m)) said.push_back(what + ": " + m); else bad(what + " was accepted"); ++n["rejections"]; }

    void op_tensor(Rng& r) {
        Shape s; for (int i = r.range(1, 4); i > 0; --i) s.push_back(r.range(1, 6)); Tensor a(s), b; fill(r, a.data(), a.total(), MIXED); b.allocate(s); a.copyTo(b); num.push_back(flt(b)); Tensor v(Shape{int(a.total())}, a.data()); v.reshape({1, int(v.total())});
        std::ostringstream o; o << b << Tensor::constant(s, 2.5f); said.push_back(o.str()); num.push_back(flt(v)); Tensor z = Tensor::zeros(s); num.push_back(flt(z)); Tensor handle = sh->x, second = handle; if (flt(second) != sh->xv) bad("the shared tensor changed"); Tensor own(sh->x.shape()); sh->x.copyTo(own); num.push_back(flt(own));
        reject("copy", [&] { Tensor w(Shape{int(a.total()) + 1}); a.copyTo(w); }); reject("reshape", [&] { v.reshape({int(v.total()) + 1}); }); reject("allocate", [&] { Tensor q; q.allocate({2, -3}); });
    }
    void op_random(Rng& r) {
        Shape s{r.range(4, 60), r.range(4, 60)}; float lo = float(r.real(-4, 0)), hi = lo + float(r.real(0.5, 5)); Tensor u = r.chance(1, 2) ? Tensor::uniform(s, lo, hi) : Tensor(s); dw::initializer::uniform(u, lo, hi);
        double m = 0; std::set<uint32_t> d; for (size_t i = 0; i < u.total(); ++i) { float x = u.data()[i]; if (!(x >= lo && x <= hi)) { bad("a uniform value is outside its range"); return; } m += x; d.insert(bits(x)); }
        m /= double(u.total()); double sd = (hi - lo) / std::sqrt(12.0 * double(u.total())); if (std::fabs(m - (lo + hi) / 2) > 7 * sd + 1e-3) bad("the mean of uniform values is far off"); if (d.size() * 2 < u.total()) bad("uniform values repeat");
        if (draws.size() < 64) for (size_t i = 0; i < 8; ++i) draws.push_back((u.data()[i] - lo) / (hi - lo));
        Tensor x = Tensor::xavierUniform(s); d.clear(); for (size_t i = 0; i < x.total(); ++i) { float q = x.data()[i]; if (!(std::fabs(q) <= 1.3)) { bad("a xavier value is outside every range"); return; } d.insert(bits(q)); } if (d.size() * 2 < x.total()) bad("xavier values repeat"); ++n["random_fills"];
    }
    void op_dropout(Rng& r) {
        Spec s; s.t = DROPOUT; s.p = float(r.offl({0.3, 0.5, 0.8})); Shape in{r.range(1, 20), r.range(10, 60)}; Inst I(s, in); I.train(true); Tensor x(in), y(in), gy(in), gx = Tensor::zeros(in); fill(r, x.data(), x.total(), POS); fill(r, gy.data(), gy.total(), POS);
        std::vector<Tensor> X{x}, GX{gx}; for (int k = 0; k < 3; ++k) {
            std::fill_n(gx.data(), gx.total(), 0.f); I.forward(X, y); I.backward(X, y, gy, GX); uint64_t z = 0;
            for (size_t i = 0; i < x.total(); ++i) { float w = y.data()[i]; double kept = double(x.data()[i]) / (1 - double(s.p)); bool off = w == 0; z += off; if (!off && !(std::fabs(w - kept) <= 1e-5 * kept)) { bad("a dropout output is neither zero nor the scaled input"); return; }
                double g = off ? 0 : double(gy.data()[i]) / (1 - double(s.p)); if (!(std::fabs(gx.data()[i] - g) <= 1e-5 * g)) { bad("dropout's gradient does not follow the mask of its forward pass"); return; } }
            double N = double(x.total()), dev = std::fabs(double(z) - N * double(s.p)); if (dev > 7 * std::sqrt(N * 0.25) + 1) bad("dropout dropped a wrong share"); ++n["dropouts"];
        }
        I.train(false); I.forward(X, y); num.push_back(flt(y));
    }
    void op_loader(Rng& r) {
        bool shuffle = r.chance(2, 3); bool own = r.chance(1, 2); auto log = std::make_shared<LogDataset>(size_t(r.range(1, 40)), sample_shape(r, 4), Shape{1}); log->salt = uint32_t(r.next());
        int size = own ? int(log->n) : int(sh->ds->n), b = r.range(1, std::max(1, size / 2)); dw::DataLoader L(own ? std::static_pointer_cast<dw::IDataset>(log) : sh->ds, b, shuffle); Tensor X, y;
        for (int e = 0; e < 2; ++e) { int got = 0; while (L.pull(X, y)) {
            std::set<int> seen; size_t nx = X.total() / size_t(b); ++n["batches"]; if (shuffle) ++n["shuffled_batches"];
            for (int k = 0; k < b; ++k) { int i = -1; if (own) { i = log->log.size() >= size_t(b) ? log->log[log->log.size() - size_t(b) + size_t(k)] : -1; if (i < 0 || i >= size || !holds(*log, X, y, k, i)) { bad("a batch row is not the sample that was pulled"); return; } }
                else { i = int(y.data()[k]); if (i < 0 || i >= size) { bad("a label of no sample"); return; } for (size_t j = 0; j < nx; ++j) if (X.data()[size_t(k) * nx + j] != sh->ds->v(i, j)) { bad("a batch row does not match its label"); return; } }
                if (!seen.insert(i).second) { bad("a sample twice in one batch"); return; } if (!shuffle && i != got * b + k) { bad("samples out of order"); return; } }
            if (!log->problem.empty()) { bad(log->problem); return; } ++got; }
            if (got != size / b) bad("an epoch of " + std::to_string(got) + " batches instead of " + std::to_string(size / b)); }
        reject("loader", [&] { dw::DataLoader x(nullptr, b, shuffle); }); reject("batch size", [&] { dw::DataLoader x(sh->ds, 0, shuffle); });
    }
    void op_net(Rng& r) {
        NetOpt o; o.dropout = r.chance(1, 3); o.max_ops = 6; o.hw = 5; o.batch = 4; Net k = gen_net(r, o); dw::Model m = k.model(); bool drop = false; for (auto& q : k.ops) drop = drop || q.s.t == DROPOUT;      // the mask is random, whatever p is
        for (auto& kv : m.params()) { Tensor t = kv.second.data(); for (size_t i = 0; i < t.total(); ++i) if (!(std::fabs(t.data()[i]) <= 4)) { bad("a parameter starts at a strange value"); return; } }
        net_randomize(r, k); m.compile(); ++n["networks"]; Arch a = arch(m.cfg()); said.push_back(m.layers().size() == k.ops.size() ? "" : "layers"); if (!a.problems.empty()) bad(a.problems[0]);
        std::vector<Tensor> x, y, g; for (int i : k.ins) { Tensor t(k.shape[size_t(i)]); fill(r, t.data(), t.total(), SGN); x.push_back(t); } for (int i : k.outs) { Tensor t(k.shape[size_t(i)]), u(k.shape[size_t(i)]); fill(r, u.data(), u.total(), SGN); y.push_back(t); g.push_back(u); }
        dw::ParamMap pm; for (auto& kv : m.params()) pm.emplace(kv.first, kv.second); OptReal opt(r.range(0, 2), pm, 0.05f, 0.9f, {0.9f, 0.999f}, 1e-3f, 0, false); dw::loss::CrossEntropyLoss L; Tensor gp(sh->prob.shape());
        for (int e = r.range(1, 3); e > 0; --e) {
            m.train(true); m.forward(x, y); m.backward(x, y, g); opt.step(); ++n["train_steps"]; float l = L.forward(sh->prob, sh->lab); L.backward(sh->prob, sh->lab, gp); num.push_back({l, dw::metric::accuracy(sh->prob, sh->lab)}); num.push_back(flt(gp));
            if (!drop) { for (auto& t : y) num.push_back(flt(t)); for (auto& kv : std::map<std::string, Tensor>(m.state().begin(), m.state().end())) num.push_back(flt(kv.second)); }
        }
        m.train(false); if (!drop) { m.forward(x, y); for (auto& t : y) num.push_back(flt(t)); }
        if (r.chance(2, 3)) files(r, m, a, k, x, y, drop);
        reject("forward", [&] { std::vector<Tensor> w(x.size() + 1, x[0]); m.forward(w, y); }); reject("layer", [&] { m.getLayer("no such layer"); });
        reject("window", [&] { Spec w; w.t = MAXPOOL; w.k = {9, 9}; w.st = {1, 1}; w.pad = {0, 0}; build(w, {Placeholder(Shape{2, 3, 4, 4})}); });
    }
    void files(Rng& r, dw::Model& m, const Arch& a, Net& k, std::vector<Tensor>& x, std::vector<Tensor>& y, bool drop) {
        std::string p = dir + "/m" + std::to_string(r.next() % 1000); dw::save(m, p); dw::Model q = dw::load(p); ++n["models_saved"]; if (!(arch(q.cfg()) == a)) { bad("a loaded model differs: " + arch(q.cfg()).diff(a)); return; }
        for (auto& kv : m.state()) { auto it = q.state().find(kv.first); if (it == q.state().end() || flt(it->second) != flt(kv.second)) { bad("a loaded model has other values in " + kv.first); return; } }
        q.compile(); q.train(false); std::vector<Tensor> z; for (auto& t : y) z.emplace_back(t.shape()); m.forward(x, y); q.forward(x, z); for (size_t i = 0; i < y.size(); ++i) if (flt(y[i]) != flt(z[i]) && !drop) { std::vector<float> f = flt(y[i]), h = flt(z[i]); for (size_t j = 0; j < f.size(); ++j) if (std::fabs(f[j] - h[j]) > 1e-4f * (1 + std::fabs(f[j]))) { bad("a loaded model computes something else"); return; } }
        dw::save_state(m.state(), p + ".s"); for (auto& kv : q.state()) { Tensor t = kv.second; std::fill_n(t.data(), t.total(), -1.f); } dw::load_state(q.state(), p + ".s"); for (auto& kv : m.state()) if (flt(q.state().at(kv.first)) != flt(kv.second)) { bad("a loaded state differs in " + kv.first); return; }
        dw::save_cfg(m.cfg(), p + ".c"); if (!(arch(dw::load_cfg(p + ".c")) == a)) { bad("a loaded configuration differs"); return; }
        dw::save_dot(m.cfg(), p + ".dot"); std::string s = slurp(p + ".dot"); if (s.find("digraph") == std::string::npos || s.find('}') == std::string::npos) bad("not a DOT file"); said.push_back(std::to_string(s.size())); said.push_back(std::to_string(k.ops.size()));
        std::string full = slurp(p); spit(p, full.substr(0, full.size() / 2)); reject("half a model", [&] { dw::load(p); }); reject("no file", [&] { dw::load(dir + "/none"); });
    }
    // Descriptions of one model read from all threads; one file loaded by all threads.
    void op_shared(Rng& r) {
        const dw::Model& m = *sh->described; ++n["shared_reads"]; Arch a = arch(m.cfg()); if (!(a == sh->described_arch) || !a.problems.empty()) { bad("the shared model's configuration reads differently"); return; }
        std::string p = dir + "/d" + std::to_string(r.next() % 1000); dw::save(m, p); if (!(arch(dw::load(p).cfg()) == a)) bad("the shared model saved differently"); dw::save_dot(m.cfg(), p); said.push_back(std::to_string(slurp(p).size())); said.push_back(std::to_string(m.layers().size() + 100 * m.inputs().size() + 10000 * m.outputs().size()));
        dw::Model b = dw::Model::Build(m.cfg()); if (!(arch(b.cfg()) == a)) bad("a model built from the shared configuration differs"); dw::save_state(m.state(), p); dw::load_state(b.state(), p); for (auto& kv : m.state()) if (flt(b.state().at(kv.first)) != flt(kv.second)) { bad("the shared model's state reads differently"); return; }
        dw::Model q = dw::load(sh->model_file); if (!(arch(q.cfg()) == sh->model_arch)) bad("a file shared by all threads loads differently"); for (auto& kv : sh->model_state) if (flt(q.state().at(kv.first)) != kv.second) { bad("a file shared by all threads loads other values"); return; }
    }
    void op_image(Rng& r) {
        for (int k = 0; k < 2; ++k) { auto& im = sh->images[r.next() % sh->images.size()]; Tensor t = r.chance(1, 2) ? dw::io::ReadImage(im.first) : Tensor(Shape{im.second.h, im.second.w, im.second.ch}); dw::io::ReadImage(im.first, t); ++n["images"]; size_t at = 0; if (!same_pixels(t, im.second, &at)) { bad("wrong pixels of " + im.second.d); return; } }
        reject("broken image", [&] { dw::io::ReadImage(r.pick(sh->broken)); }); reject("no image", [&] { dw::io::ReadImage(sh->dir + "/none.png"); });
    }
    void run() {
        omp_set_num_threads(team); Rng r(seed); said.clear(); num.clear(); problem.clear(); draws.clear();
        try { for (int i = 0; i < ops && problem.empty(); ++i) {
            if (sh->slow && r.chance(1, 3)) usleep(useconds_t(r.next() % uint64_t(sh->slow)));
            int k = r.pick(*kinds); Rng q(r.next()); ++n["operations"];
            switch (k) { case 0: op_tensor(q); break; case 1: op_random(q); break; case 2: op_dropout(q); break; case 3: op_loader(q); break; case 4: op_net(q); break; case 5: op_shared(q); break; default: op_image(q); }
        } } catch (const std::exception& e) { bad(std::string("unexpected exception: ") + e.what()); } catch (...) { bad("unexpected exception"); }
    }
};
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; Shared sh; sh.dir = c.work + "/s" + std::to_string(idx); mkdir(sh.dir.c_str(), 0755); int nt = r.range(2, 6); sh.slow = r.of({0, 0, 50, 400});
    static const std::vector<std::vector<int>> MIX = {{0, 1, 2, 3, 4, 5, 6}, {1}, {3}, {2}, {1, 2, 3}, {4}, {5, 6}, {4, 5}, {6}, {0, 6, 3}, {1, 4}, {0, 1, 2, 3, 4, 5, 6}};
    static const char* MN[] = {"everything", "random", "loaders", "dropout", "draws", "networks", "shared", "models", "images", "data", "initialization", "everything"};
    size_t mix = idx % MIX.size(); auto uses = [&](int k) { return std::find(MIX[mix].begin(), MIX[mix].end(), k) != MIX[mix].end(); };
    if (uses(6)) { for (int i = 0; i < 3; ++i) { Img im = make_image(r, 12); std::string p = sh.dir + "/i" + std::to_string(i) + ext_of(r, im.png); put_file(p, im.file); sh.images.push_back({p, im}); }
        for (auto& q : sh.images) { Bytes f(q.second.file.begin(), q.second.file.begin() + std::min<long>(12, long(q.second.file.size()))); std::string p = sh.dir + "/broken" + std::to_string(sh.broken.size()) + (q.second.png ? ".png" : ".jpg"); put_file(p, f); sh.broken.push_back(p); } }
    sh.ds = std::make_shared<Plain>(size_t(r.range(1, 60)), sample_shape(r, 4), Shape{1}, uint32_t(r.next())); sh.x = Tensor({3, 5}); fill(r, sh.x.data(), 15, SGN); sh.xv = flt(sh.x);
    int b = r.range(1, 6), cl = r.range(2, 7); sh.prob = Tensor({b, cl}); sh.lab = Tensor({b, 1}); for (size_t i = 0; i < sh.prob.total(); ++i) sh.prob.data()[i] = float(r.real(0.05, 1)); for (int i = 0; i < b; ++i) sh.lab.data()[i] = float(r.range(0, cl - 1));
    if (uses(5)) { NetOpt o; o.max_ops = 8; o.hw = 5; Net n = gen_net(r, o); net_randomize(r, n); sh.described.reset(new dw::Model(n.model())); sh.described_arch = arch(sh.described->cfg()); Net k = gen_net(r, o); net_randomize(r, k); dw::Model m = k.model(); sh.model_file = sh.dir + "/model"; dw::save(m, sh.model_file); sh.model_arch = arch(m.cfg()); for (auto& kv : m.state()) sh.model_state[kv.first] = flt(kv.second); }
    int ops = r.range(1, mix == 0 || mix == 11 ? 6 : 3); bool same = r.chance(1, 3), first = idx % 2 == 0; uint64_t seed = r.next();
    c.desc("threads-%s|%d threads, %d operations each, seed %llx, %s, %s", MN[mix], nt, ops, (unsigned long long)seed, same ? "the same script" : "own scripts", first ? "concurrent first" : "sequential first");
    std::vector<Script> conc(static_cast<size_t>(nt)), seq(static_cast<size_t>(nt));
    for (int k = 0; k < nt; ++k) for (auto* v : {&conc, &seq}) { Script& s = (*v)[size_t(k)]; s.seed = same ? seed : Ctx::hash(std::to_string(seed) + ":" + std::to_string(k)); s.id = k; s.ops = ops; s.sh = &sh; s.kinds = &MIX[mix]; s.team = k % 3 == 2 && TS ? 2 : 1; s.dir = sh.dir + (v == &conc ? "/c" : "/q") + std::to_string(k); mkdir(s.dir.c_str(), 0755); }
    auto together = [&] {
        std::atomic<int> ready{0}; std::vector<std::thread> th;
        for (auto& s : conc) th.emplace_back([&, p = &s] { ready.fetch_add(1); while (ready.load() < nt) std::this_thread::yield(); p->run(); });
        for (auto& t : th) t.join();
    };
    auto alone = [&] { for (auto& s : seq) s.run(); omp_set_num_threads(1); };
    if (first) { together(); alone(); } else { alone(); together(); }
    c.count("concurrent_scripts", nt); c.maxi("threads", nt); c.count(std::string("mix_") + MN[mix]);
    for (int k = 0; k < nt; ++k) {
        Script &s = conc[size_t(k)], &q = seq[size_t(k)]; for (auto& kv : s.n) c.count(kv.first, kv.second);
        if (!q.problem.empty()) { c.fail("alone:" + std::string(MN[mix]), "a script failed on its own: " + q.problem); return; }
        if (!s.problem.empty()) { c.fail("threads:" + std::string(MN[mix]), "only when run concurrently: " + s.problem); return; }
        if (s.said != q.said || s.num.size() != q.num.size()) { std::string w = "different amount"; for (size_t i = 0; i < s.said.size() && i < q.said.size(); ++i) if (s.said[i] != q.said[i]) { w = "'" + s.said[i].substr(0, 150) + "' instead of '" + q.said[i].substr(0, 150) + "'"; break; }
            auto strip = [&](std::string t, const std::string& d) { for (size_t p; (p = t.find(d)) != std::string::npos;) t.replace(p, d.size(), "DIR"); return t; }; bool diff = s.said.size() != q.said.size() || s.num.size() != q.num.size(); for (size_t i = 0; !diff && i < s.said.size(); ++i) diff = strip(s.said[i], s.dir) != strip(q.said[i], q.dir);
            if (diff) { c.fail("threads:reports", "results differ from the sequential ones: " + w); return; } }
        for (size_t i = 0; i < s.num.size(); ++i) { if (s.num[i].size() != q.num[i].size()) { c.fail("threads:results", "result sizes differ"); return; } if (!near(c, "threads:results", "result " + std::to_string(i), s.num[i].data(), q.num[i].data(), s.num[i].size(), 1e-3)) return; }
        c.count("results_compared", long(s.num.size() + s.said.size()));
    }
    for (int i = 0; i < nt; ++i) for (int j = 0; j < i; ++j) { auto &a = conc[size_t(i)].draws, &d = conc[size_t(j)].draws; if (a.empty() || d.empty()) continue; c.count("draw_comparisons"); int eq = 0; for (size_t p = 0; p < 8; ++p) for (size_t q = 0; q < 8; ++q) eq += std::fabs(a[p] - d[q]) < 1e-6f; if (eq >= 4) { c.fail("threads:same-draws", "two threads drew the same random numbers"); return; } }
    std::string rm; std::function<void(const std::string&)> wipe = [&](const std::string& d) { DIR* h = opendir(d.c_str()); if (!h) return; while (dirent* e = readdir(h)) { std::string f = e->d_name; if (f == "." || f == "..") continue; f = d + "/" + f; if (unlink(f.c_str())) wipe(f); } closedir(h); rmdir(d.c_str()); }; wipe(sh.dir);
}
