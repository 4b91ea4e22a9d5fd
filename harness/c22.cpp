#include "loader.hpp"
const char* PROP = "C22";
uint64_t ncases(const Ctx& c) { return c.thorough ? 40000 : 4000; }
void run_case(Ctx& c, uint64_t) {
    Rng& r = c.rng;
    int n = r.chance(1, 150) ? r.range(3000, 70000) : r.chance(1, 8) ? r.range(0, 1) : r.range(1, r.chance(1, 6) ? 400 : 40);
    int b = r.chance(1, 8) ? std::max(1, n) : r.chance(1, 8) ? n + r.range(1, 3) : r.range(1, std::max(1, std::min(n, 33)));
    if (r.chance(1, 5) && n > 3) { b = r.range(1, n); n = b * std::max(1, n / b); }                       // exact multiple
    auto ds = std::make_shared<LogDataset>(size_t(n), sample_shape(r, 7), r.chance(2, 3) ? Shape{1} : sample_shape(r, 4));
    if (n <= 40 && r.chance(1, 150)) { (r.chance(1, 3) ? ds->ys : ds->xs) = r.chance(1, 2) ? Shape{r.range(32760, 70000)} : Shape{r.range(1, 3), r.range(181, 300), r.range(181, 300)}; c.count("large_samples"); }
    ds->salt = uint32_t(r.next());
    int nl = r.range(1, 3), epochs = r.range(1, 4); if (n <= 40 && r.chance(1, 100)) { epochs = r.range(100, 600); c.count("long_histories"); }
    c.desc("sequential|n=%d b=%d x=%s y=%s loaders=%d epochs=%d", n, b, str(ds->xs).c_str(), str(ds->ys).c_str(), nl, epochs);
    struct L { std::unique_ptr<dw::DataLoader> l; int pos = 0, epoch = 0; GT X, y; Tensor eX, eY; bool empty = false; };
    std::vector<L> ls(static_cast<size_t>(nl));
    Shape bx = with_batch(b, ds->xs), by = with_batch(b, ds->ys);
    auto fresh = [&](L& l) { l.empty = r.chance(1, 3); if (l.empty) { l.eX = Tensor(); l.eY = Tensor(); } else { l.X.make(r, bx); l.y.make(r, by); } };
    for (auto& l : ls) { l.l.reset(new dw::DataLoader(ds, b, false)); fresh(l); }
    for (;;) {
        std::vector<L*> act; for (auto& l : ls) if (l.epoch < epochs) act.push_back(&l);
        if (act.empty()) break;
        L& l = *act[r.next() % act.size()];
        if (r.chance(1, 10)) fresh(l);
        if (r.chance(1, 25)) {                                                // mismatching destination: rejected, nothing consumed
            Shape w = bx, v = by; int k = r.range(0, 3);
            if (k == 0) w[0] += 1; else if (k == 1) w.push_back(1); else if (k == 2) v[0] += 1; else { size_t t = prod(v); v = Shape{int(t)}; if (v == by) v = {int(t), 1}; }
            GT a, d; a.make(r, w); d.make(r, v); a.snapshot(); d.snapshot(); ds->log.clear();
            Tensor wt = a.t, vt = d.t;
            if (!throws([&] { l.l->pull(wt, vt); })) { c.fail("pull:mismatch-accepted", "destination " + str(w) + "/" + str(v) + " accepted"); return; }
            if (!ds->log.empty() || !a.unchanged() || !d.unchanged()) { c.fail("pull:mismatch-consumed", "a rejected pull accessed samples or wrote the destination"); return; }
            c.count("rejections"); continue;
        }
        Tensor X = l.empty ? l.eX : l.X.t, y = l.empty ? l.eY : l.y.t;
        bool pre = !X.empty();
        if (pre) for (size_t i = 0; i < X.total(); ++i) X.data()[i] = -3.f;
        if (pre) for (size_t i = 0; i < y.total(); ++i) y.data()[i] = -4.f;
        float *px = pre ? X.data() : nullptr, *py = pre ? y.data() : nullptr;
        ds->log.clear(); ds->problem.clear();
        bool ok = l.l->pull(X, y);
        c.count("pulls");
        if (!ds->problem.empty()) { c.fail("pull:access", ds->problem); return; }
        bool want = l.pos + b <= n;
        if (ok != want) { c.failf("pull:epoch", "pull returned %d at position %d of %d (batch %d, epoch %d)", int(ok), l.pos, n, b, l.epoch); return; }
        if (pre && (X.data() != px || y.data() != py || X.shape() != bx || y.shape() != by)) { c.fail("pull:realloc", "allocated destination was replaced"); return; }
        if (!ok) {
            if (!ds->log.empty()) { c.fail("pull:access-at-end", "samples accessed by the pull that ends the epoch"); return; }
            if (pre) { for (size_t i = 0; i < X.total(); ++i) if (X.data()[i] != -3.f) { c.fail("pull:touched", "X changed at the end of the epoch"); return; } for (size_t i = 0; i < y.total(); ++i) if (y.data()[i] != -4.f) { c.fail("pull:touched", "y changed at the end of the epoch"); return; } }
            l.pos = 0; l.epoch++; c.count("epochs_ended");
            if (l.empty) { l.eX = X; l.eY = y; if (r.chance(1, 2)) { l.eX = Tensor(); l.eY = Tensor(); } }
        } else {
            if (X.shape() != bx || y.shape() != by || X.total() != prod(bx)) { c.fail("pull:shape", "batch has shape " + str(X.shape()) + "/" + str(y.shape())); return; }
            for (int k = 0; k < b; ++k) if (!holds(*ds, X, y, k, l.pos + k)) { c.failf("pull:sample", "row %d of the batch at position %d is not sample %d with its label", k, l.pos, l.pos + k); return; }
            std::vector<int> lg = ds->log; std::sort(lg.begin(), lg.end()); lg.erase(std::unique(lg.begin(), lg.end()), lg.end());
            if (int(lg.size()) != b || lg.front() != l.pos || lg.back() != l.pos + b - 1) { c.fail("pull:access", "accessed samples other than the batch's"); return; }
            c.count("samples_checked", b); l.pos += b;
            if (l.empty) { l.eX = X; l.eY = y; }
        }
        if (!l.empty && (!l.X.canaries() || !l.y.canaries())) { c.fail("pull:outside", "wrote outside the batch tensors"); return; }
    }
}
