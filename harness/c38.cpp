#include <iostream>
#include "samples.hpp"
const char* PROP = "C38";
uint64_t ncases(const Ctx& c) { return c.thorough ? 40000 : 2400; }
// All of the data set against the expected records: the right size and shape, and every record delivered
// under exactly one index with its own label, into views of any alignment and nothing beside them.
static bool matches(Ctx& c, const std::string& key, dw::IDataset& ds, const std::vector<Rec>& recs, const Shape& xs, const std::function<int(const Rec&)>& label, float tol) {
    Rng& r = c.rng;
    if (ds.size() != recs.size()) { c.failf(key + ":size", "size() is %zu for %zu records", ds.size(), recs.size()); return false; }
    if (ds.shape().first != xs || ds.shape().second != Shape{1}) { c.fail(key + ":shape", "shape() is " + str(ds.shape().first) + "/" + str(ds.shape().second)); return false; }
    std::vector<int> order(recs.size()), owner(recs.size(), -1); std::iota(order.begin(), order.end(), 0);
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.next() % i]);
    if (!order.empty()) for (int k = 0; k < 3; ++k) order.push_back(order[r.next() % order.size()]);        // again
    std::map<std::string, std::vector<size_t>> by;                                                            // first pixels -> candidates
    for (int i : order) {
        GT X, y; X.make(r, xs); y.make(r, {1}); ds.pull(i, X.t, y.t); c.count("records");
        if (!X.canaries() || !y.canaries()) { c.fail(key + ":outside", "pull wrote outside the sample"); return false; }
        int hit = -1;
        for (size_t k = 0; k < recs.size() && hit < 0; ++k) {
            if (owner[k] >= 0 && owner[k] != i) continue;
            bool eq = true; for (size_t j = 0; j < recs[k].x.size() && eq; ++j) eq = std::fabs(X.p()[j] - recs[k].x[j]) <= tol * std::max(1.f, std::fabs(recs[k].x[j]));
            if (eq && y.p()[0] == float(label(recs[k]))) hit = int(k);
        }
        if (hit < 0) { c.failf(key + ":record", "sample %d (label %g, starting %g %g %g) is no undelivered record of the files", i, double(y.p()[0]), double(X.p()[0]), double(X.p()[1]), double(X.p()[2])); return false; }
        owner[size_t(hit)] = i;
    }
    c.count(key + "_sets"); return true;
}
static Bytes image(Rng& r, size_t n) { int pat = r.range(0, 2); Bytes b(n); for (auto& v : b) v = (unsigned char)(pat == 0 ? r.next() : pat == 1 ? (r.chance(1, 2) ? 255 : 0) : r.range(100, 120)); for (int k = 0; k < 4; ++k) b[r.next() % n] = (unsigned char)r.next(); return b; }
static void iris(Ctx& c, const std::string& dir) {
    Rng& r = c.rng; int n = r.chance(1, 10) ? 0 : r.range(1, r.chance(1, 6) ? 150 : 30); int bad = r.chance(1, 3) ? r.range(1, 5) : 0; std::string path = dir + "/iris.csv";
    static const char* what[] = {"valid", "short-row", "blank-line", "unknown-species", "missing-file", "no-number"};
    if (bad && bad != 4 && n == 0) n = 1;
    c.desc("iris-%s|rows=%d", what[bad], n);
    std::string csv = "sepal_length,sepal_width,petal_length,petal_width,species\n"; std::vector<Rec> recs; int at = n ? r.range(0, n - 1) : -1;
    for (int i = 0; i < n; ++i) {
        Rec rec; std::string row;
        for (int k = 0; k < 4; ++k) { char b[40]; double v = r.chance(1, 8) ? 0 : r.real(-1, 9); snprintf(b, sizeof b, r.chance(1, 2) ? "%.1f" : r.chance(1, 2) ? "%.6g" : r.chance(1, 2) ? "%g" : "%.3e", r.chance(1, 6) ? std::round(v) : v); rec.x.push_back(float(strtod(b, nullptr))); row += std::string(b) + ","; }
        rec.cls = r.pick(IRIS); std::string cls = rec.cls;
        if (i == at && bad == 3) cls = r.chance(1, 2) ? "rose" : r.chance(1, 2) ? "" : "Setosa";
        row += cls;
        if (i == at && bad == 1) { row = row.substr(0, row.find(',', r.chance(1, 2) ? 0 : row.find(',') + 1)); if (r.chance(1, 3)) row = "5.1,3.5,1.4," + std::string("0.2"); }
        if (i == at && bad == 2) row = "";
        if (i == at && bad == 5) row = "abc" + row.substr(row.find(','));
        csv += row; if (i + 1 < n || r.chance(1, 2) || row.empty()) csv += "\n"; recs.push_back(rec);
    }
    if (bad == 4) { path = dir + "/none/iris.csv"; } else put_file(path, Bytes(csv.begin(), csv.end()));
    std::shared_ptr<dw::IDataset> ds;
    if (bad) { int f0 = open_fds(); if (!throws([&] { ds = make_iris(path); })) c.fail(std::string("iris-") + what[bad] + ":accepted", "no exception"); else if (open_fds() != f0) c.fail("iris:fd", "a file was left open"); c.count("damaged_sets"); return; }
    ds = make_iris(path);
    matches(c, "iris", *ds, recs, {4}, [](const Rec& x) { return index_of(IRIS, x.cls); }, 3e-7f);
}
struct Tree { std::vector<Rec> recs; std::vector<std::string> classes; };
static Tree tree(Rng& r, const std::string& root, const std::vector<std::string>& classes, int w, int ch, int files) {
    Tree t; t.classes = classes; mkdirs(root);
    for (auto& k : classes) mkdirs(root + "/" + k);
    for (int i = 0; i < files && !classes.empty(); ++i) { std::string cls = r.pick(classes); t.recs.push_back(put_image(root, cls, (r.chance(1, 4) ? "im.age " : "") + std::to_string(i) + ".png", w, w, ch, image(r, size_t(w * w * ch)))); }
    return t;
}
static std::vector<std::string> subset(Rng& r, std::vector<std::string> v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.next() % i]); v.resize(size_t(r.range(1, int(v.size())))); return v; }
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; g_order = 0; std::string dir = c.work + "/d"; mkdirs(dir); int kind = int(idx % 8);
    if (kind < 3) iris(c, dir);
    else if (kind < 6) {
        bool mn = kind == 3; std::string key = mn ? "mnist" : "cifar10"; std::vector<std::string> all = CIFAR10; if (mn) { all.clear(); for (int i = 0; i < 10; ++i) all.push_back(std::to_string(i)); }
        auto cl = subset(r, all); int n = r.range(0, 8), bad = r.chance(1, 4) ? r.range(1, 3) : 0; if (bad == 2 && n == 0) n = 1;
        Tree t = tree(r, dir + "/set", cl, mn ? 28 : 32, mn ? 1 : 3, n);
        c.desc("%s-%d|classes=%zu files=%d", key.c_str(), bad, cl.size(), n);
        auto mk = [&](const std::string& p) { return mn ? make_mnist(p) : make_cifar10(p); };
        if (bad == 1) { mkdirs(dir + "/set/unknown_class"); if (r.chance(1, 2)) put_image(dir + "/set", "unknown_class", "a.png", mn ? 28 : 32, mn ? 28 : 32, mn ? 1 : 3, image(r, mn ? 784 : 3072)); }
        g_order = r.next() | 1;
        if (bad == 1 || bad == 3) { std::shared_ptr<dw::IDataset> ds; if (!throws([&] { ds = mk(dir + (bad == 1 ? "/set" : "/no-set")); })) c.fail(key + (bad == 1 ? "-unknown-class" : "-missing") + ":accepted", "no exception"); c.count("damaged_sets"); }
        else {
            auto ds = mk(dir + "/set");
            if (bad == 2) {                                   // one damaged image: its pull fails, the others are right
                g_order = 0; auto& rec = t.recs[r.next() % t.recs.size()]; int w = mn ? 28 : 32;
                if (r.chance(1, 2)) put_file(rec.path, Bytes{1, 2, 3}); else put_file(rec.path, encode_png(w + 1, w, mn ? 1 : 3, image(r, size_t((w + 1) * w * (mn ? 1 : 3)))));
                int failed = 0; for (size_t i = 0; i < ds->size(); ++i) { GT X, y; X.make(r, ds->shape().first); y.make(r, {1}); if (throws([&] { ds->pull(int(i), X.t, y.t); })) ++failed; if (!X.canaries() || !y.canaries()) { c.fail(key + ":outside", "a failed pull wrote outside the sample"); break; } }
                if (failed != 1) c.failf(key + ":damaged", "%d of %zu pulls failed, one image is damaged", failed, ds->size());
                c.count("damaged_images");
            } else matches(c, key, *ds, t.recs, mn ? Shape{784} : Shape{3, 32, 32}, [&](const Rec& x) { return index_of(all, x.cls); }, 3e-7f);
        }
    } else {
        std::set<std::string> names; int k = r.range(1, 12); while (int(names.size()) < k) names.insert(class_name(r));
        std::vector<std::string> cl(names.begin(), names.end()); Tree test = tree(r, dir + "/test", cl, 32, 3, r.range(1, 5)), train = tree(r, dir + "/train", cl, 32, 3, r.range(1, 6));
        c.desc("cifar100|classes=%d files=%zu+%zu", k, test.recs.size(), train.recs.size());
        for (auto* t : {&test, &train}) for (auto& x : cl) { bool has = false; for (auto& q : t->recs) has |= q.cls == x; if (!has) t->recs.push_back(put_image(dir + (t == &test ? "/test" : "/train"), x, "z.png", 32, 32, 3, image(r, 3072))); }
        std::map<std::string, int> first;
        for (int run = 0; run < 2; ++run) {
            uint64_t ord = r.next() | 1;
            Run p = in_child(c, "cifar100", [&] {               // a run of the program: validation data first, then training data
                auto a = [&] { g_order = ord; return make_cifar100(dir + "/test"); }(); auto b = make_cifar100(dir + "/train"); if (!g_shuffled && k > 1) harness_error("listing order not under control"); g_order = 0;
                std::map<std::string, int> lab;
                for (auto* t : {&test, &train}) for (auto& q : t->recs) if (!lab.count(q.cls)) {       // label of a class: from any of its images
                    auto& ds = t == &test ? a : b;
                    for (size_t i = 0; i < ds->size(); ++i) { GT X, y; X.make(r, {3, 32, 32}); y.make(r, {1}); ds->pull(int(i), X.t, y.t); bool eq = true; for (size_t j = 0; j < 3072 && eq; ++j) eq = std::fabs(X.p()[j] - q.x[j]) < 1e-6f; if (eq) { lab[q.cls] = int(y.p()[0]); break; } }
                }
                bool ok = matches(c, "cifar100", *a, test.recs, {3, 32, 32}, [&](const Rec& x) { auto it = lab.find(x.cls); return it == lab.end() ? -9 : it->second; }, 3e-7f) && matches(c, "cifar100", *b, train.recs, {3, 32, 32}, [&](const Rec& x) { auto it = lab.find(x.cls); return it == lab.end() ? -9 : it->second; }, 3e-7f);
                if (!ok) { printf("MISMATCH %s -- %s\n", c.viol.back().key.c_str(), c.viol.back().msg.c_str()); return 0; }
                for (auto& [n, l] : lab) printf("%d %s\n", l, n.c_str());
                return 0;
            });
            if (p.died) { c.failf("cifar100:died", "the run ended with status %d", p.status); break; }
            if (p.status == 9) harness_error("child");
            if (p.out.rfind("MISMATCH", 0) == 0 || p.status) { c.fail("cifar100:record", p.out.substr(0, 600)); break; }
            std::map<std::string, int> lab; std::istringstream in(p.out); std::string line; std::set<int> used;
            while (std::getline(in, line)) { size_t s = line.find(' '); int l = atoi(line.c_str()); lab[line.substr(s + 1)] = l; if (l < 0 || l >= k || !used.insert(l).second) { c.failf("cifar100:label", "class %s has label %d (%d classes)", line.c_str() + s + 1, l, k); } }
            if (int(lab.size()) != k) { c.fail("cifar100:label", "not every class has a label"); break; }
            if (run && lab != first) { c.fail("cifar100:numbering", "the same classes get other labels when the file system lists them in another order"); break; }
            first = lab; c.count("class_numberings"); c.count("cifar100_sets");
        }
    }
    g_order = 0; rm_tree(dir);
}
