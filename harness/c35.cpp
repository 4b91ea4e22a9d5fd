// Memory and descriptor conservation: steady-state work does not grow, and dropping the objects gives everything back.
#include "ser.hpp"
#include "loader.hpp"
#include "images.hpp"
#include "optref.hpp"
#include <deepworks/loss.hpp>
#include <deepworks/metrics.hpp>
const char* PROP = "C35";
uint64_t ncases(const Ctx& c) { return c.thorough ? 60000 : 2400; }
typedef std::function<void()> Act;
typedef std::function<Act()> Make;      // creates the objects of a scenario and returns one cycle of work on them
// Grows in two consecutive intervals of n repetitions (a single growth may be a lazily created helper).
static bool grows(const Act& f, int n, long* by) {
    long h[3]; int d[3];
    for (int k = 0; k < 3; ++k) { for (int i = 0; i < n; ++i) f(); h[k] = heap_bytes(); d[k] = open_fds(); }
    *by = h[2] - h[1];
    if (d[1] > d[0] && d[2] > d[1]) { *by = -(d[2] - d[1]); return true; }
    return h[1] > h[0] && h[2] > h[1];
}
static void monitor(Ctx& c, const std::string& key, const Make& make, int reps) {
    long by = 0;
    {
        Act work = make(); work(); work();
        if (grows(work, reps, &by)) { c.failf(key + ":grows", by < 0 ? "%ld descriptors more after %d further repetitions" : "%ld bytes more after %d further repetitions", std::labs(by), reps); return; }
        c.count("steady_states");
    }
    auto life = [&] { Act work = make(); work(); };
    life();
    if (grows(life, 2, &by)) { c.failf(key + ":leak", by < 0 ? "%ld descriptors left behind by 2 lifetimes" : "%ld bytes left behind by 2 lifetimes", std::labs(by)); return; }
    c.count("lifetimes"); c.count("scenario_" + key);
}
static Tensor filled(Rng& r, const Shape& s) { Tensor t(s); fill(r, t.data(), t.total(), SGN); return t; }
static std::vector<Tensor> tensors(Rng& r, const Net& n, const std::vector<int>& ids) { std::vector<Tensor> v; for (int i : ids) v.push_back(filled(r, n.shape[size_t(i)])); return v; }

void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; int kind = int(idx % 9); const uint64_t seed = r.next();
    if (kind == 0 || kind == 8) {                                               // one layer over changing shapes and modes
        int t = int(idx / 9 % NLT); Spec s; Shape in; GenOpt o; o.cap4 = 8; o.cap2 = 30; o.batch = 6; gen_layer(r, t, s, in, o);
        std::vector<Shape> shapes{in}; if (t != DROPOUT) { for (int k = r.range(0, 2); k-- > 0;) { Shape q = in; q[0] = r.range(1, 9); shapes.push_back(q); } if (is4d(s) && r.chance(1, 2)) { Shape q = in; q[2] += r.range(0, 4); q[3] += r.range(0, 4); shapes.push_back(q); } }
        bool factory = kind == 8;
        c.desc("layer|%s in=%s shapes=%zu%s", s.str().c_str(), str(in).c_str(), shapes.size(), factory ? " make_layer" : "");
        monitor(c, "layer", [&]() -> Act {
            auto I = std::make_shared<Inst>(); Rng q(seed);
            if (factory) { Placeholders ph; for (int i = 0; i < n_in(s); ++i) ph.push_back(Placeholder(in)); auto out = dw::make_layer(lt_name(t), "x", attrs_of(s), ph); *I = Inst(s, out.impl().call->impl().info, in, out.shape()); } else *I = Inst(s, in);
            return [I, &s, &shapes, q]() mutable {
                for (auto& sh : shapes) for (bool mode : {true, false}) {
                    I->train(mode); std::vector<Tensor> x, gx; for (int i = 0; i < n_in(s); ++i) { x.push_back(filled(q, sh)); gx.push_back(filled(q, sh)); } Tensor y(ref_shape(s, sh)), gy = filled(q, y.shape());
                    I->forward(x, y); I->forward(x, y); I->backward(x, y, gy, gx);
                }
            };
        }, 4);
        c.count("layer_passes");
    } else if (kind == 1) {                                                     // tensors
        std::vector<Shape> sh; for (int k = r.range(2, 6); k-- > 0;) { Shape s; for (int q = r.range(0, 4); q-- > 0;) s.push_back(r.range(0, 9)); sh.push_back(s); }
        c.desc("tensor|%zu shapes from %s", sh.size(), str(sh[0]).c_str());
        monitor(c, "tensor", [&]() -> Act {
            auto keep = std::make_shared<std::vector<Tensor>>(sh.size()); Rng q(seed);
            return [keep, &sh, q]() mutable {
                float mem[8] = {};
                for (auto& s : sh) {
                    Tensor a(s), b = a, v({2, 4}, mem); a.allocate(s); Tensor z = Tensor::zeros(s), u = Tensor::uniform(s), k = Tensor::constant(s, 2.f); if (!s.empty()) { Tensor x = Tensor::xavierUniform(s); }
                    throws([&] { a.copyTo(b); }); throws([&] { v.copyTo(a); }); throws([&] { a.reshape({-1}); }); throws([&] { Tensor n({3, -2}); }); throws([&] { v.allocate({4, -1}); });
                    v.reshape({8}); if (q.chance(1, 2)) v.allocate({3, 3}); (*keep)[q.next() % keep->size()] = q.chance(1, 2) ? a : z; std::ostringstream o; o << u;
                }
                for (auto& t : *keep) t = Tensor(); for (size_t i = 0; i < sh.size(); ++i) (*keep)[i].allocate(sh[i]);
            };
        }, 4);
    } else if (kind == 2 || kind == 3) {                                        // whole models
        NetOpt o; o.max_ops = 9; o.batch = 4; uint64_t ns = r.next(); { Rng q(ns); c.desc("%s|%s", kind == 2 ? "training" : "building", gen_net(q, o).str().c_str()); }
        if (kind == 2) monitor(c, "training", [&]() -> Act {
            struct All { Net n; std::unique_ptr<dw::Model> m; std::vector<Tensor> x, y, g; std::unique_ptr<OptReal> opt; std::shared_ptr<LogDataset> d; std::unique_ptr<dw::DataLoader> dl; dw::loss::CrossEntropyLoss L; Tensor p, gp, lab, X, Y; };
            auto a = std::make_shared<All>(); Rng q(seed), z(ns); a->n = gen_net(z, o); a->m.reset(new dw::Model(a->n.model())); a->m->compile(); a->x = tensors(q, a->n, a->n.ins); a->y = tensors(q, a->n, a->n.outs); a->g = tensors(q, a->n, a->n.outs);
            a->opt.reset(new OptReal(int(q.next() % 3), a->m->params(), 0.01f, 0.9f, {0.9f, 0.999f}, 1e-3f, 0, false)); a->d = std::make_shared<LogDataset>(size_t(q.range(2, 9)), Shape{2, 3}, Shape{1}); a->dl.reset(new dw::DataLoader(a->d, q.range(1, 3), q.chance(1, 2)));
            int b = q.range(1, 5), k = q.range(2, 5); a->p = Tensor({b, k}); a->gp = Tensor({b, k}); a->lab = Tensor::zeros({b, 1}); dw::initializer::constant(a->p, 0.25f);
            return [a] {
                a->m->train(true); a->m->forward(a->x, a->y); a->m->backward(a->x, a->y, a->g); a->opt->step(); a->m->train(false); a->m->forward(a->x, a->y);
                a->L.forward(a->p, a->lab); a->L.backward(a->p, a->lab, a->gp); dw::metric::accuracy(a->p, a->lab); dw::metric::accuracyOneHot(a->p, a->gp);
                Tensor X, Y; while (a->dl->pull(X, Y)) {} a->d->log.clear(); a->d->log.shrink_to_fit(); a->d->problem.clear();
            };
        }, 3);
        else monitor(c, "building", [&]() -> Act {
            Rng z(ns); auto n = std::make_shared<Net>(gen_net(z, o)); auto m = std::make_shared<dw::Model>(n->model()); m->compile(); Rng q(seed); auto x = tensors(q, *n, n->ins), y = tensors(q, *n, n->outs);
            return [n, m, x, y]() mutable {
                m->compile(); m->forward(x, y); dw::Model copy = *m; copy.compile(); copy.forward(x, y); dw::Model again = dw::Model::Build(m->cfg()); again.compile(); again.forward(x, y);
                throws([&] { dw::Model bad(n->ph[size_t(n->ins[0])], Placeholder(Shape{1, 2})); }); throws([&] { m->getLayer("nobody"); });
                auto l = m->layers(); l.insert(l.end(), l.begin(), l.end());
            };
        }, 3);
        c.count("models", 2);
    } else if (kind == 4 || kind == 5) {                                        // files
        NetOpt o; o.max_ops = 6; o.batch = 3; uint64_t ns = r.next(); { Rng q(ns); c.desc("%s|%s", kind == 4 ? "saving" : "damaged", gen_net(q, o).str().c_str()); } std::string f = c.work + "/m.bin", g = c.work + "/d.bin";
        if (kind == 4) monitor(c, "saving", [&]() -> Act {
            Rng z(ns); auto m = std::make_shared<dw::Model>(gen_net(z, o).model());
            return [m, &f] { dw::save(*m, f); dw::Model l = dw::load(f); dw::save_state(m->state(), f); dw::load_state(l.state(), f); dw::save_cfg(m->cfg(), f); auto cf = dw::load_cfg(f); dw::save_dot(cf, f); };
        }, 3);
        else {
            Rng z(ns); dw::Model m = gen_net(z, o).model(); dw::save(m, f); std::string good = slurp(f); std::vector<std::string> bad; for (int k = r.range(1, 4); k-- > 0;) bad.push_back(r.chance(1, 2) ? good.substr(0, r.next() % good.size()) : good.substr(0, good.size() / 2) + "xyz");
            monitor(c, "damaged", [&]() -> Act {
                return [&] { for (auto& b : bad) { spit(g, b); throws([&] { dw::load(g); }); throws([&] { dw::load_cfg(g); }); throws([&] { dw::load_state(m.state(), g); }); } throws([&] { dw::load("/nonexistent/file"); }); throws([&] { dw::save(m, "/nonexistent/dir/file"); }); throws([&] { dw::save(m, "/dev/full"); }); throws([&] { dw::save_dot(m.cfg(), "/nonexistent/dir/file"); }); };
            }, 3);
        }
        unlink(f.c_str()); unlink(g.c_str()); c.count("files", 2);
    } else if (kind == 6) {                                                     // images
        Img im = make_image(r, 30); std::string p = c.work + "/i" + ext_of(r, im.png), q = c.work + "/b" + ext_of(r, im.png); put_file(p, im.file); Bytes cut(im.file.begin(), im.file.begin() + long(r.next() % im.file.size())); put_file(q, cut);
        c.desc("image|%s", im.d.c_str());
        monitor(c, "image", [&]() -> Act { auto t = std::make_shared<Tensor>(Shape{im.h, im.w, im.ch}); return [&, t] { Tensor n = dw::io::ReadImage(p); dw::io::ReadImage(p, *t); throws([&] { dw::io::ReadImage(q); }); throws([&] { dw::io::ReadImage(q, *t); }); Tensor w({1, 1, 7777}); throws([&] { dw::io::ReadImage(p, w); }); throws([&] { dw::io::ReadImage(c.work + "/none.png"); }); throws([&] { dw::io::ReadImage(c.work + "/none.txt"); }); }; }, 3);
        unlink(p.c_str()); unlink(q.c_str()); c.count("images");
    } else {                                                                    // rejected layers
        c.desc("rejected|%llu", (unsigned long long)(idx));
        Shape s4{2, 3, 5, 6}, s2{4, 5}; Placeholder p4(s4), p2(s2);
        std::vector<Act> bad{[&] { dw::Linear(0, "l")(p2); }, [&] { dw::Linear(3, "l")(Placeholder(Shape{5})); }, [&] { dw::Convolution(2, {9, 9}, {0, 0}, {1, 1}, "c")(p4); }, [&] { dw::Convolution(2, {2, 2}, {0, 0}, {0, 1}, "c")(p4); }, [&] { dw::MaxPooling({2, 2}, {-1, 0}, {1, 1}, "m")(p4); },
            [&] { dw::BatchNorm1D(1e-3f, 0.1f, "b")(p4); }, [&] { dw::BatchNorm2D(1e-3f, 0.1f, "b")(p2); }, [&] { dw::Softmax("s")(p4); }, [&] { dw::Add("a")(p2, p4); }, [&] { dw::make_layer("Nothing", "x", {}, {p2}); }, [&] { dw::make_layer("Linear", "x", {}, {p2}); },
            [&] { dw::make_layer("Linear", "x", {{"units", dw::Attribute(2.5f)}}, {p2}); }, [&] { dw::make_layer("Add", "x", {}, {p2}); }, [&] { dw::GlobalAvgPooling("g")(p2); }};
        std::vector<Act> some; for (int k = 4; k-- > 0;) some.push_back(r.pick(bad));
        monitor(c, "rejected", [&]() -> Act { return [&] { for (auto& f : some) throws(f); throws([&] { dw::Placeholder x(Shape{2, 2}); dw::Model m(x, dw::ReLU("a")(dw::ReLU("a")(x))); }); }; }, 4);
        c.count("rejections");
    }
}
