#include "ser.hpp"
#include <csignal>
#include <sys/resource.h>
const char* PROP = "C32";
extern size_t g_new_cap, g_new_max;
uint64_t ncases(const Ctx& c) { return c.thorough ? 30000 : 2400; }
// The same layers as n, built again with other values.
static Net again(Rng& r, const Net& n) {
    Net q; std::map<int, int> id; for (size_t i = 0; i < n.shape.size(); ++i) if (n.producer[i] < 0) id[int(i)] = q.data(n.shape[i], Placeholder(n.shape[i]), -1);
    for (auto& op : n.ops) { Spec s = op.s; s.name = op.info.name(); std::vector<int> in; for (int i : op.in) in.push_back(id[i]); id[op.out] = q.add(s, in); }
    for (int i : n.ins) q.ins.push_back(id[i]); for (int i : n.outs) q.outs.push_back(id[i]); net_randomize(r, q); return q;
}
struct Cap { size_t old; explicit Cap(size_t n) : old(g_new_cap) { g_new_cap = n; g_new_max = 0; } ~Cap() { g_new_cap = old; } };
// Runs one kind of load on a file; true when it threw.
static bool load_throws(Ctx& c, int kind, const std::string& f, dw::Model& target, size_t fsize) {
    Cap cap(8u << 20); bool t;
    if (kind == 0) t = throws([&] {
        dw::Model m = dw::load(f); c.count("accepted_damaged");
        // an accepted model is usable: its description is consistent, and it runs when it is small
        Arch a = arch(m.cfg()); if (!a.problems.empty()) c.fail("accepted:inconsistent", a.problems[0]);
        double tot = 0; for (auto& kv : m.cfg().ph_map) { double p = 1; for (int d : kv.second.shape) p *= d < 1 ? 1e9 : d; tot += p; }
        if (tot < 50000) throws([&] { m.compile(); std::vector<Tensor> x, y; for (auto& p : m.inputs()) { Tensor q(p.shape()); std::fill_n(q.data(), q.total(), 0.5f); x.push_back(q); } for (auto& p : m.outputs()) y.push_back(Tensor(p.shape())); m.forward(x, y); c.count("accepted_ran"); });
    });
    else {
        t = throws([&] { if (kind == 1) dw::load_cfg(f); else dw::load_state(target.state(), f); });
        if (g_new_max > (1u << 20) + 4 * fsize) c.failf("allocation:absurd", "reading a file of %zu bytes requested an allocation of %zu bytes", fsize, g_new_max);
    }
    c.count(t ? "loads_rejected" : "loads_accepted"); return t;
}
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; NetOpt o; o.max_ops = 4; o.max_in = 2; o.hw = 4; if (idx % 8 == 7) o.max_ops = 12;
    Net n = gen_net(r, o); net_randomize(r, n); dw::Model m = n.model(); Net q = again(r, n); dw::Model target = q.model();
    int how = int(idx % 8), kind = r.range(0, 2); static const char* kn[] = {"model", "config", "state"}; static const char* hn[] = {"truncated", "damaged", "damaged", "damaged", "wrong-kind", "other-architecture", "unwritable", "missing"};
    std::string f = c.work + "/f.bin", key = std::string(hn[how]) + "-" + kn[kind];
    auto save = [&](int k, const std::string& p) { if (k == 0) dw::save(m, p); else if (k == 1) dw::save_cfg(m.cfg(), p); else dw::save_state(m.state(), p); };
    save(kind, f); std::string good = slurp(f); int fds = open_fds();
    c.desc("%s|%zu bytes %s", key.c_str(), good.size(), n.str().c_str());
    if (how == 0) {
        std::vector<size_t> cut; if (good.size() <= 700) for (size_t i = 0; i < good.size(); ++i) cut.push_back(i); else { for (int i = 0; i < 150; ++i) { cut.push_back(size_t(r.next() % good.size())); cut.push_back(good.size() - 1 - size_t(i) % good.size()); } }
        long hb = 0; size_t k = 0;
        for (size_t i : cut) { spit(f, good.substr(0, i)); if (++k == 3) hb = heap_bytes(); c.count("truncations"); if (!load_throws(c, kind, f, target, i)) { c.failf(key + ":accepted", "a file cut to %zu of %zu bytes was accepted", i, good.size()); break; } if (c.failed()) break; }
        if (k > 40 && has_heap_bytes() && heap_bytes() - hb > 2000 + 8 * long(k)) c.failf(key + ":leak", "%ld bytes leaked over %zu failed loads", heap_bytes() - hb, k);
    } else if (how <= 3) {
        for (int rep = 0; rep < 12 && !c.failed(); ++rep) {
            std::string s = good; int ch = r.range(1, 3);
            for (int i = 0; i < ch && !s.empty(); ++i) {
                size_t p = r.chance(1, 2) ? size_t(r.next() % s.size()) : size_t(r.next() % std::min<size_t>(s.size(), 400)); int w = r.range(0, 7);
                if (w <= 1) s[p] = char(s[p] ^ (1 << r.range(0, 7))); else if (w == 2) s[p] = char(r.next()); else if (w == 3) s[p] = char(0xff);
                else if (w == 4) { size_t l = std::min<size_t>(8, s.size() - p); uint64_t v = r.chance(1, 2) ? ~0ull : r.chance(1, 2) ? 1ull << r.range(20, 62) : uint64_t(r.range(0, 9)); memcpy(&s[p], &v, l); }
                else if (w == 5) { size_t l = std::min<size_t>(4, s.size() - p); int v = r.of({0, -1, 1, 2, 3, 7, 1 << 16, 1 << 30, INT32_MAX, INT32_MIN, 100}); memcpy(&s[p], &v, l); }
                else if (w == 6) s.erase(p, size_t(r.range(1, 9))); else s.insert(p, std::string(size_t(r.range(1, 9)), char(r.next())));
            }
            spit(f, s); c.count("damages"); load_throws(c, kind, f, target, s.size());
        }
    } else if (how == 4) {
        int other = kind == 2 ? r.range(0, 1) : 2; c.count("wrong_kinds");                 // a model file starts with its configuration
        if (!load_throws(c, other, f, target, good.size())) c.fail(key + ":accepted", std::string("loading a ") + kn[kind] + " file as a " + kn[other] + " was accepted");
    } else if (how == 5) {
        NetOpt o2 = o; Net p = gen_net(r, o2); net_randomize(r, p); if (r.chance(1, 2)) { p = again(r, n); Spec s; s.t = LINEAR; s.units = 3; s.name = "extra"; p.outs.push_back(p.add(s, {p.ins[0]})); }
        dw::Model other = p.model(); dw::Model::StateDict od = other.state();
        if (r.chance(1, 2)) {                                                   // the same names, one entry of another shape
            od.clear(); for (auto& kv : m.state()) od.emplace(kv.first, kv.second); if (r.chance(1, 6)) od.clear();
            if (!od.empty()) { std::vector<std::string> ks; for (auto& kv : od) ks.push_back(kv.first); std::sort(ks.begin(), ks.end()); std::string k = r.pick(ks); Shape sh = od.at(k).shape(); int w = r.range(0, 3);
                if (w == 0 && sh.size() > 1) std::swap(sh[0], sh[1]); else if (w == 1) sh[size_t(r.next() % sh.size())] += r.range(1, 3); else if (w == 2) sh.push_back(1); else { int tot = 1; for (int d : sh) tot *= d; sh = {tot}; }
                Tensor t(sh); fill(r, t.data(), t.total(), SGN); od.at(k) = t; c.count("reshaped_states"); }
        }
        dw::save_state(od, f); bool fits = true;
        for (auto& kv : od) { auto it = target.state().find(kv.first); if (it == target.state().end() || it->second.shape() != kv.second.shape()) fits = false; }
        bool t = load_throws(c, 2, f, target, slurp(f).size()); c.count(fits ? "fitting_states" : "other_architectures");
        if (t == fits) c.fail(key + (fits ? ":rejected" : ":accepted"), fits ? "a fitting state was rejected" : "the state of another architecture was accepted");
    } else if (how == 6) {
        int w = r.range(0, 3);
        if (w < 3) { std::string p = w == 0 ? c.work + "/nodir/f.bin" : w == 1 ? "/dev/full" : c.work; c.count("unwritable"); if (!throws([&] { save(kind, p); })) c.fail(key + ":silent", "saving to " + p + " reported no error"); if (!throws([&] { dw::save_dot(m.cfg(), p); })) c.fail("unwritable-dot:silent", "save_dot to " + p + " reported no error"); }
        else {
            signal(SIGXFSZ, SIG_IGN); struct rlimit old; getrlimit(RLIMIT_FSIZE, &old);
            for (int i = 0; i < 12 && !c.failed(); ++i) {
                size_t lim = size_t(r.next() % good.size()); if (i == 0) lim = good.size() - 1; struct rlimit l = old; l.rlim_cur = lim; setrlimit(RLIMIT_FSIZE, &l);
                bool t = throws([&] { save(kind, f); }); setrlimit(RLIMIT_FSIZE, &old); c.count("write_faults");
                if (!t) c.failf(key + ":silent", "a write failing after %zu of %zu bytes reported no error", lim, good.size());
            }
        }
        save(kind, f); if (slurp(f) != good) c.fail(key + ":after", "saving after failed saves writes something else");
    } else {
        std::string p = r.chance(1, 3) ? c.work : r.chance(1, 2) ? c.work + "/none.bin" : c.work + "/nodir/x"; c.count("missing_files");
        if (!load_throws(c, kind, p, target, 0)) c.fail(key + ":accepted", "loading " + p + " was accepted");
        if (access((c.work + "/none.bin").c_str(), F_OK) == 0) c.fail(key + ":created", "loading created the file");
    }
    // a good file still loads, nothing stays open
    if (!c.failed()) { spit(f, good); c.count("loads_after"); if (kind == 0) dw::load(f); else if (kind == 1) dw::load_cfg(f); else { dw::load_state(target.state(), f); for (auto& kv : m.state()) if (!samebits(target.state().at(kv.first), bitsof(kv.second))) { c.fail(key + ":after", "a good state does not load any more"); break; } } }
    if (open_fds() != fds) c.failf(key + ":descriptors", "%d descriptors open, %d before", open_fds(), fds);
    unlink(f.c_str());
}
