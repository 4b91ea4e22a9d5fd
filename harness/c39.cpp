#include <iostream>
#include "samples.hpp"
#include <deepworks/deepworks.hpp>
const char* PROP = "C39";
uint64_t ncases(const Ctx& c) { return c.thorough ? 1600 : 96; }
int main_iris(int, char**); int main_mnist(int, char**); int main_cifar10(int, char**); int main_cifar100(int, char**);
using Main = int (*)(int, char**);
static Run program(Ctx& c, Main m, uint64_t seed, uint64_t order, const std::vector<std::string>& args) {
    return in_child(c, "run", [&] {
        g_device_state = seed; g_order = order; std::vector<std::string> v{"sample"}; v.insert(v.end(), args.begin(), args.end());
        std::vector<char*> a; for (auto& s : v) a.push_back(&s[0]); a.push_back(nullptr); return m(int(v.size()), a.data());
    });
}
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> v; std::istringstream in(s); std::string l; while (std::getline(in, l)) v.push_back(l); return v; }
static bool value(const std::string& l, const char* tag, double& v) { if (l.rfind(tag, 0)) return false; char* e; v = strtod(l.c_str() + strlen(tag), &e); return *e == 0 && e != l.c_str() + strlen(tag); }
// A well separated data set of k classes.
struct Data { std::vector<Rec> recs; };
static void iris_file(Rng& r, const std::string& dir, int n, double noise, Data& d) {
    mkdirs(dir); std::string csv = "a,b,c,d,species\n";
    for (int i = 0; i < n; ++i) { int k = i % 3; Rec q; q.cls = IRIS[size_t(k)]; std::string row; for (int j = 0; j < 4; ++j) { char b[32]; snprintf(b, sizeof b, "%.2f", 1.0 + (j % 3 == k ? 5.0 : 0.0) + r.real(-noise, noise)); q.x.push_back(float(strtod(b, nullptr))); row += std::string(b) + ","; } csv += row + q.cls + "\n"; d.recs.push_back(q); }
    put_file(dir + "/iris.csv", Bytes(csv.begin(), csv.end()));
}
static void image_tree(Rng& r, const std::string& dir, const std::vector<std::string>& cl, int n, int w, int ch, bool noisy, Data& d) {
    mkdirs(dir); for (auto& k : cl) mkdirs(dir + "/" + k);
    for (int i = 0; i < n; ++i) {
        int k = i % int(cl.size()); Bytes px(size_t(w * w * ch));
        for (int y = 0; y < w; ++y) for (int x = 0; x < w; ++x) for (int z = 0; z < ch; ++z) { bool on = (x * 5 / w + 5 * (y * 2 / w)) == k % 10; px[size_t((y * w + x) * ch + z)] = (unsigned char)(noisy ? r.range(on ? 40 : 0, 255) : (on ? 200 : 20) + r.range(0, 40)); }
        d.recs.push_back(put_image(dir, cl[size_t(k)], std::to_string(i) + ".png", w, w, ch, px));
    }
}
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; g_order = 0; std::string root = c.work + "/data/"; mkdirs(root);
    static const Main mains[] = {main_iris, main_mnist, main_cifar10, main_cifar100}; static const char* names[] = {"iris", "mnist", "cifar10", "cifar100"};
    uint64_t per = idx / 8; int which = per % 6 == 5 ? 3 : per % 6 == 4 ? 2 : per % 6 == 3 ? 1 : 0; std::string key = names[which];
    int b = which == 0 ? r.of({4, 8, 16, 32}) : which == 1 ? r.of({5, 8, 10, 20}) : r.range(2, 4);
    int ntest = b * r.range(1, which < 2 ? 4 : 2), tail = r.chance(1, 3) ? r.range(1, b - 1) : 0, ntrain = which == 0 ? r.range(60, 150) : which == 1 ? r.range(60, 120) : b * r.range(1, 2), epochs = which < 2 ? r.range(5, 8) : r.range(1, 2), freq = b * r.range(1, 4) + (r.chance(1, 4) ? 1 : 0); bool noisy = r.chance(1, 2);
    c.desc("%s|batch=%d train=%d test=%d+%d epochs=%d freq=%d noisy=%d", key.c_str(), b, ntrain, ntest, tail, epochs, freq, int(noisy));
    Data train, test; std::vector<std::string> cl;
    if (which == 0) { iris_file(r, root + "train", ntrain, noisy ? 5.0 : 0.4, train); iris_file(r, root + "test", ntest + tail, noisy ? 5.0 : 0.4, test); cl = IRIS; }
    else {
        if (which == 1) for (int i = 0; i < 10; ++i) cl.push_back(std::to_string(i)); else if (which == 2) cl = CIFAR10; else { std::set<std::string> s; while (s.size() < 6) s.insert(class_name(r)); cl.assign(s.begin(), s.end()); }
        image_tree(r, root + "train", cl, ntrain, which == 1 ? 28 : 32, which == 1 ? 1 : 3, noisy, train); image_tree(r, root + "test", cl, ntest + tail, which == 1 ? 28 : 32, which == 1 ? 1 : 3, noisy, test);
    }
    uint64_t order = r.next() | 1; std::string model = c.work + "/model.bin"; unlink(model.c_str());
    Run tr = program(c, mains[which], r.next(), order, {"train", root, std::to_string(b), std::to_string(epochs), std::to_string(freq), model});
    if (tr.died || tr.status) { c.failf(key + ":train", "training ended with status %d: %s", tr.status, tr.out.substr(0, 300).c_str()); rm_tree(root); return; }
    // the report: per epoch its number, the running loss every freq samples, the mean loss, the accuracy
    auto ls = lines(tr.out); size_t at = 0; double acc = -1, first = 0, last = 0; bool ok = true; int iters = ntrain / b;
    for (int e = 0; e < epochs && ok; ++e) {
        double v; ok = at < ls.size() && value(ls[at++], "Epoch: ", v) && v == e; int nl = 1; for (int i = 1; i <= iters; ++i) nl += i * b % freq == 0;
        double prev = 0, run = -1; for (int i = 0; i < nl && ok; ++i) { if (i) run = prev; ok = at < ls.size() && value(ls[at++], "Loss: ", v) && std::isfinite(v) && v >= 0; prev = v; }
        if (ok && iters * b % freq == 0 && run != prev) { c.failf(key + ":loss", "after the last batch of an epoch the running loss is %g, the loss of the epoch %g", run, prev); rm_tree(root); return; }
        if (e == 0) first = prev; last = prev;
        ok = ok && at < ls.size() && value(ls[at++], "Accuracy: ", acc) && acc >= 0 && acc <= 1.00001;
        c.count("epochs");
    }
    if (!ok || at + 1 != ls.size() || ls[at] != "Model saved: " + model) { c.fail(key + ":report", "unexpected training report: " + tr.out.substr(0, 500)); rm_tree(root); return; }
    if (which < 2 && !noisy && b >= 8 && iters * epochs >= 16) {        // five times apart clusters are learnt, whatever the initial weights
        if (acc < 0.6) { c.failf(key + ":learns", "after %d steps the loss went from %g to %g and the accuracy is %g", iters * epochs, first, last, acc); rm_tree(root); return; }
        c.count("learnt");
    }
    // the saved model, tested by a run of its own, scores what the last epoch reported
    Run te = program(c, mains[which], r.next(), order, {"test", root, std::to_string(b), model}); double a2 = -1; auto l2 = lines(te.out);
    if (te.died || te.status || l2.size() != 1 || !value(l2[0], "Accuracy: ", a2)) { c.failf(key + ":test", "the test run ended with status %d: %s", te.status, te.out.substr(0, 300).c_str()); rm_tree(root); return; }
    if (std::fabs(a2 - acc) > 2e-5) { c.failf(key + ":agree", "training reported accuracy %g, the saved model scores %g", acc, a2); rm_tree(root); return; }
    c.count("train_test_pairs"); c.count(key + "_runs");
    // an evaluation of our own over the files
    if (!tail) {
        Run ev = in_child(c, "eval", [&] {
            auto m = dw::load(model); m.compile(); m.train(false); size_t n = test.recs[0].x.size(); int hits = 0;
            std::vector<std::string> sorted = cl; if (which == 3) std::sort(sorted.begin(), sorted.end());
            Tensor X(m.inputs()[0].shape()), out(m.outputs()[0].shape()); int k = out.shape()[1];
            for (size_t i = 0; i + size_t(b) <= test.recs.size(); i += size_t(b)) {
                for (size_t j = 0; j < size_t(b); ++j) std::copy(test.recs[i + j].x.begin(), test.recs[i + j].x.end(), X.data() + j * n);
                m.forward(X, out);
                for (size_t j = 0; j < size_t(b); ++j) { const float* p = out.data() + j * size_t(k); hits += int(std::max_element(p, p + k) - p) == index_of(sorted, test.recs[i + j].cls); }
            }
            printf("%.9g\n", double(hits) / double(test.recs.size())); return 0;
        });
        double a3 = strtod(ev.out.c_str(), nullptr);
        if (ev.died || ev.status) { c.failf(key + ":load", "evaluating the saved model ended with status %d: %s", ev.status, ev.out.substr(0, 200).c_str()); rm_tree(root); return; }
        // predictions within rounding of a tie may differ between evaluations
        if (std::fabs(a3 - a2) > 1.01 / double(test.recs.size()) * (which < 2 ? 0.001 : 1.0) + 2e-5) { c.failf(key + ":accuracy", "the sample reports accuracy %g, counting over the files gives %g", a2, a3); rm_tree(root); return; }
        c.count("independent_evaluations");
    }
    rm_tree(root); unlink(model.c_str());
}
