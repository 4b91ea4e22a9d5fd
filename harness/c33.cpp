#include "net.hpp"
#include <omp.h>
#include <thread>
#include <atomic>
#include <deepworks/loss.hpp>
#include <deepworks/metrics.hpp>
#include "optref.hpp"
const char* PROP = "C33";
#if defined(__SANITIZE_THREAD__)
extern "C" { extern std::atomic<unsigned long> g_omp_regions, g_omp_threads_started; extern std::atomic<uint64_t> g_omp_seed; }
static const bool TS = true;
#else
static const bool TS = false;
#endif
uint64_t ncases(const Ctx& c) { return TS ? (c.thorough ? 12000 : 900) : (c.thorough ? 30000 : 2400); }
struct Result { std::vector<float> y; std::vector<std::vector<float>> gx; std::map<std::string, std::vector<float>> gp, buf; };
static bool elementwise(int t) { return t == RELU || t == LEAKY || t == ADD || t == GAP || t == MAXPOOL || t == DROPOUT; }
// One layer on the same tensors with different team sizes.
static void layer_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; int t = idx % 2 ? r.of({CONV, CONV, CONV, ADD, LINEAR, LINEAR, MAXPOOL, BN2}) : int(idx / 2 % NLT); Spec s; Shape in; GenOpt o; o.cap4 = r.chance(1, 4) ? 14 : 8; o.cap2 = r.chance(1, 4) ? 160 : 40; o.batch = 9; gen_layer(r, t, s, in, o);
    if (t == CONV && r.chance(1, 3)) { in = {r.range(1, 6), r.range(2, 8), 14, 14}; s.units = r.range(6, 20); s.k = {3, 3}; s.pad = {1, 1}; s.st = {1, 1}; }
    if (t == LINEAR && r.chance(1, 3)) { in = {r.range(20, 64), r.range(60, 130)}; s.units = r.range(40, 100); }
    if (is_bn(s) && bn_n(s, in) < 2) in[0] = 2;
    c.desc("%s|%s in=%s", lt_name(t), s.str().c_str(), str(in).c_str()); std::string key = lt_name(t); c.count(std::string("layer_") + key);
    Inst I(s, in); randomize(r, I, SGN); bool train = t != DROPOUT; I.train(train);
    Run R; R.inputs(r, I, in, SGN); distinct_values(r, R.x[0].p(), R.x[0].n); for (size_t i = 0; i < R.x[0].n; ++i) R.x[0].p()[i] = float(R.x[0].p()[i] * (t == SOFTMAX || t == SIGMOID || t == ELU_ ? 0.01 : 0.1)); R.refresh();
    R.grads(r, I, in, SGN, false); std::vector<std::vector<float>> g0; for (auto& g : R.gx) g0.push_back(flt(g.t)); std::map<std::string, std::vector<float>> b0; for (auto& kv : I.info.impl().buffers) b0[kv.first] = flt(kv.second);
    Result ref; std::vector<int> teams{1, r.range(2, 4), r.of({2, 3, 5, 7, 8}), TS ? 6 : 16};
    for (size_t k = 0; k < teams.size(); ++k) {
        omp_set_num_threads(teams[k]); for (auto& kv : b0) { Tensor b = I.info.impl().buffers.at(kv.first); std::copy(kv.second.begin(), kv.second.end(), b.data()); }
        for (size_t i = 0; i < g0.size(); ++i) std::copy(g0[i].begin(), g0[i].end(), R.gx[i].p()); R.y.poison(); poison_grads(r, I);
        std::string kk = key + (teams[k] == 1 ? "" : "-parallel");
        if (!R.forward(c, I, in, train, kk) || !R.backward(c, I, in, kk)) { omp_set_num_threads(1); return; }
        Result now; now.y = flt(R.y.t); for (auto& g : R.gx) now.gx.push_back(flt(g.t)); for (auto& kv : I.info.params()) now.gp[kv.first] = flt(kv.second.grad()); for (auto& kv : I.info.buffers()) now.buf[kv.first] = flt(kv.second);
        if (k == 0) { ref = now; continue; }
        c.count("team_comparisons"); c.count("team_" + std::to_string(teams[k])); double tol = elementwise(t) ? 0 : 1e-4;
        bool ok = near(c, key + ":threads-forward", "output", now.y.data(), ref.y.data(), now.y.size(), tol);
        for (size_t i = 0; i < now.gx.size(); ++i) ok = ok && near(c, key + ":threads-backward", "input gradient", now.gx[i].data(), ref.gx[i].data(), now.gx[i].size(), tol);
        for (auto& kv : now.gp) if (kv.first != "mask") ok = ok && near(c, key + ":threads-param-grad", kv.first, kv.second.data(), ref.gp[kv.first].data(), kv.second.size(), 1e-3);
        for (auto& kv : now.buf) ok = ok && near(c, key + ":threads-buffer", kv.first, kv.second.data(), ref.buf[kv.first].data(), kv.second.size(), 1e-4);
        if (!ok) break;
    }
    omp_set_num_threads(1);
}
// Independent objects driven from several threads at once; what each did alone is the reference.
struct Job {
    Net n; std::unique_ptr<dw::Model> m; std::vector<Tensor> x, y, g; std::vector<std::vector<float>> seq, par; dw::ParamMap loose; std::map<std::string, std::vector<float>> start; std::map<std::string, Tensor> bufs;
    Tensor prob, gprob, lab; int opt = 0, iters = 2; uint64_t seed = 1; int team = 1;
    void reset() { for (auto& kv : start) { auto it = bufs.find(kv.first); Tensor t = it->second; std::copy(kv.second.begin(), kv.second.end(), t.data()); } }
    std::vector<std::vector<float>> work() {
        std::vector<std::vector<float>> out; omp_set_num_threads(team); OptReal o(opt, loose, 0.05f, 0.9f, {0.9f, 0.999f}, 1e-3f, 0, false); dw::loss::CrossEntropyLoss L;
        for (int i = 0; i < iters; ++i) {
            m->forward(x, y); for (auto& t : y) out.push_back(flt(t)); m->backward(x, y, g); for (auto& kv : std::map<std::string, dw::Parameter>(loose.begin(), loose.end())) out.push_back(flt(kv.second.grad())); o.step();
            float l = L.forward(prob, lab); L.backward(prob, lab, gprob); out.push_back({l, dw::metric::accuracy(prob, lab)}); out.push_back(flt(gprob));
        }
        for (auto& kv : bufs) out.push_back(flt(kv.second)); return out;
    }
};
static void thread_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; int nt = r.range(2, 5); std::vector<std::unique_ptr<Job>> js; std::string d; NetOpt o; o.dropout = false; o.max_ops = 7; o.hw = 5; o.batch = 4; bool same = r.chance(1, 2); uint64_t shape_seed = r.next();
    for (int k = 0; k < nt; ++k) {
        auto j = std::make_unique<Job>(); Rng q(same ? shape_seed : r.next()); j->n = gen_net(q, o); net_randomize(r, j->n); j->m.reset(new dw::Model(j->n.model())); j->m->compile(); j->m->train(true);
        for (int i : j->n.ins) { Tensor t(j->n.shape[size_t(i)]); fill(r, t.data(), t.total(), SGN); j->x.push_back(t); } for (int i : j->n.outs) { Tensor t(j->n.shape[size_t(i)]), u(j->n.shape[size_t(i)]); fill(r, u.data(), u.total(), SGN); j->y.push_back(t); j->g.push_back(u); }
        for (auto& kv : j->m->params()) j->loose.emplace(kv.first, kv.second); for (auto& kv : j->m->state()) { j->start[kv.first] = flt(kv.second); j->bufs.emplace(kv.first, kv.second); }
        int b = r.range(1, 6), cl = r.range(2, 7); j->prob = Tensor({b, cl}); j->gprob = Tensor({b, cl}); j->lab = Tensor({b, 1}); for (size_t i = 0; i < j->prob.total(); ++i) j->prob.data()[i] = float(r.real(0.05, 1)); for (int i = 0; i < b; ++i) j->lab.data()[i] = float(r.range(0, cl - 1));
        j->opt = r.range(0, 2); j->iters = r.range(1, 3); j->team = r.of({1, 1, 2, 3}); j->seed = r.next(); if (k < 2) d += " [" + j->n.str().substr(0, 300) + "]"; js.push_back(std::move(j));
    }
    c.desc("threads|%d%s", nt, d.c_str());
    for (auto& j : js) { j->reset(); j->seq = j->work(); j->reset(); }
    std::atomic<int> ready{0}; std::atomic<bool> bad{false}; std::vector<std::thread> th;
    for (auto& j : js) th.emplace_back([&, p = j.get()] { ready.fetch_add(1); while (ready.load() < nt) std::this_thread::yield(); if (p->seed % 4 == 0) usleep(useconds_t(p->seed >> 40) % 300); try { p->par = p->work(); } catch (...) { bad = true; } });
    for (auto& t : th) t.join(); omp_set_num_threads(1);
    if (bad) { c.fail("threads:exception", "an exception only when run concurrently"); return; }
    c.count("concurrent_runs", nt);
    for (auto& j : js) { if (j->par.size() != j->seq.size()) { c.fail("threads:results", "different amount of results"); return; } for (size_t i = 0; i < j->seq.size(); ++i) if (!near(c, "threads:results", "result " + std::to_string(i), j->par[i].data(), j->seq[i].data(), j->seq[i].size(), 1e-3)) return; }
}
void run_case(Ctx& c, uint64_t idx) {
#if defined(__SANITIZE_THREAD__)
    g_omp_seed = c.rng.next(); unsigned long r0 = g_omp_regions, t0 = g_omp_threads_started;
#endif
    if (idx % 6 == 5) thread_case(c, idx / 6); else layer_case(c, idx - idx / 6);
#if defined(__SANITIZE_THREAD__)
    c.count("tsan_regions", long(g_omp_regions - r0)); c.count("tsan_team_threads", long(g_omp_threads_started - t0));
#endif
}
