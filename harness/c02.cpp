#include "common.hpp"
const char* PROP = "C02";
uint64_t ncases(const Ctx& c) { return c.thorough ? 576000 : 28800; }

// Model of a descriptor shared by handles
struct MStore { Shape s; std::vector<float> v; std::shared_ptr<std::vector<float>> ext; size_t extoff = 0; bool owned = true, empty = true; };
typedef std::shared_ptr<MStore> MP;
// bit patterns a value-based copy would get wrong
static uint32_t special(Rng& r) { static const uint32_t w[] = {0, 0x80000000u, 0x7fc00001u, 0xffc12345u, 0x7f800000u, 0xff800000u, 1, 0x80000001u, 0x7f7fffffu}; return r.chance(1, 4) ? bits(float(r.range(-9, 9))) : w[r.next() % 9]; }
static const float CAN = -12345.5f;

static Shape gshape(Rng& r) { Shape s; int k = r.range(1, 4); for (int i = 0; i < k; ++i) s.push_back(dim(r, 12)); if (r.chance(1, 60)) s = {dim(r, 5000)}; if (r.chance(1, 3000)) s = r.chance(1, 2) ? Shape{r.range(65530, 140000)} : Shape{r.range(250, 300), r.range(250, 300)}; return s; }

void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng;
    int steps = r.range(5, c.thorough ? 120 : 60);
    c.desc("history|%d steps seedcase %lu", steps, (unsigned long)idx);
    long before = heap_bytes();
    {
        std::vector<Tensor> h; std::vector<MP> m;
        std::vector<std::pair<std::shared_ptr<std::vector<float>>, std::vector<float>>> exts;   // caller memory and its expected contents
        auto check = [&](const char* op) -> bool {
            for (size_t i = 0; i < h.size(); ++i) {
                if (h[i].total() != (m[i]->empty ? 0 : prod(m[i]->s)) || (!m[i]->empty && h[i].shape() != m[i]->s)) { c.failf(std::string(op) + ":meta", "handle %zu has shape %s, expected %s", i, str(h[i].shape()).c_str(), str(m[i]->s).c_str()); return false; }
                for (size_t j = 0; j < m[i]->v.size(); ++j) if (bits(h[i].data()[j]) != bits(m[i]->v[j])) { c.failf(std::string(op) + ":content", "handle %zu element %zu is %g, expected %g", i, j, h[i].data()[j], m[i]->v[j]); return false; }
                if (m[i]->ext && !m[i]->owned && h[i].data() != m[i]->ext->data() + m[i]->extoff) { c.fail(std::string(op) + ":view", "view no longer refers to caller memory"); return false; }
                for (size_t j = 0; j < i; ++j) {
                    bool same = m[i] == m[j];
                    if (m[i]->empty || m[j]->empty) continue;
                    if (same != (h[i].data() == h[j].data())) { c.failf(std::string(op) + ":alias", "handles %zu and %zu: %s", i, j, same ? "should share storage" : "must not share storage"); return false; }
                }
            }
            for (auto& e : exts) for (size_t j = 0; j < e.first->size(); ++j) if (bits((*e.first)[j]) != bits(e.second[j])) { c.failf(std::string(op) + ":callermem", "caller memory element %zu changed to %g", j, (*e.first)[j]); return false; }
            c.count("checked_states");
            return true;
        };
        auto writeModel = [&](MP& p, size_t j, float f) { p->v[j] = f; if (!p->owned) for (auto& e : exts) if (e.first == p->ext) e.second[p->extoff + j] = f; };
        for (int k = 0; k < steps; ++k) {
            int op = r.range(0, 13);
            size_t i = h.empty() ? 0 : r.next() % h.size(), j = h.empty() ? 0 : r.next() % h.size();
            if (h.size() < 2) op = r.of({0, 1});
            if (h.size() > 9) op = 12;
            const char* name = "?";
            if (op == 0 || op == 13) {
                name = "create"; Shape s = gshape(r); Tensor t(s); auto p = std::make_shared<MStore>(); p->s = s; p->empty = false; p->v.resize(prod(s)); bool odd = r.chance(1, 3);
                for (size_t q = 0; q < p->v.size(); ++q) { uint32_t w = odd ? special(r) : bits(float(r.range(-1000, 1000))); memcpy(t.data() + q, &w, 4); memcpy(&p->v[q], &w, 4); }
                h.push_back(t); m.push_back(p);
            } else if (op == 1) {
                name = "view"; Shape s = gshape(r); auto ext = std::make_shared<std::vector<float>>(prod(s) + 12, CAN); size_t off = size_t(r.range(3, 8));
                auto p = std::make_shared<MStore>(); p->s = s; p->empty = false; p->owned = false; p->ext = ext; p->extoff = off; p->v.resize(prod(s));
                for (size_t q = 0; q < p->v.size(); ++q) (*ext)[off + q] = p->v[q] = float(r.real(-5, 5));
                exts.push_back({ext, *ext});
                h.push_back(Tensor(s, ext->data() + off)); m.push_back(p);
            } else if (op == 2) { name = "copy"; h.push_back(Tensor(h[i])); m.push_back(m[i]); }
            else if (op == 3) { name = "assign"; h[j] = h[i]; m[j] = m[i]; }
            else if (op == 4) { name = "move"; Tensor t(std::move(h[i])); h[i] = t; Tensor u; u = std::move(t); h.push_back(u); m.push_back(m[i]); }
            else if (op == 5) { name = "write"; if (!m[i]->v.empty()) for (int q = 0; q < 5; ++q) { size_t e = r.next() % m[i]->v.size(); float f = fbits(uint32_t(r.next())); if (std::isnan(f)) f = -0.f; h[i].data()[e] = f; writeModel(m[i], e, f); } }
            else if (op == 6) {
                name = "allocate"; Shape s = gshape(r); bool same = r.chance(1, 3) && !m[i]->empty; if (same) s = m[i]->s;
                h[i].allocate(s); MP p = m[i]; p->s = s; p->empty = false; p->owned = true; p->v.assign(prod(s), 0);
                for (size_t q = 0; q < p->v.size(); ++q) h[i].data()[q] = p->v[q] = float(q % 97);
            } else if (op == 7 || op == 8) {
                name = "copyTo";
                if (op == 7 && !m[i]->empty) {           // matching destination
                    Tensor d(m[i]->s); auto p = std::make_shared<MStore>(*m[i]); p->owned = true; p->ext = nullptr;
                    for (size_t q = 0; q < p->v.size(); ++q) { uint32_t w = special(r); memcpy(d.data() + q, &w, 4); }
                    h[i].copyTo(d); h.push_back(d); m.push_back(p); c.count("copies");
                } else {
                    bool ok = !m[j]->empty && !m[i]->empty && m[i]->s == m[j]->s;
                    if (!ok) { 
                        if (!throws([&] { h[i].copyTo(h[j]); })) { c.failf("copyTo:accept", "copyTo %s -> %s accepted", str(m[i]->s).c_str(), str(m[j]->s).c_str()); return; }
                        c.count("rejected_copies");
                    } else { h[i].copyTo(h[j]); std::vector<float> src = m[i]->v; for (size_t q = 0; q < src.size(); ++q) writeModel(m[j], q, src[q]); c.count("copies"); }
                }
            } else if (op == 9) { name = "default"; h.push_back(Tensor()); m.push_back(std::make_shared<MStore>()); }
            else if (op == 10 && !m[i]->empty) { name = "reshape"; Shape s = m[i]->s; std::reverse(s.begin(), s.end()); if (r.chance(1, 2)) s.insert(s.begin(), 1); if (s.size() > 6) s = {int(m[i]->v.size())}; h[i].reshape(s); m[i]->s = s; }
            else if (op == 11) { name = "selfassign"; Tensor& t = h[i]; t = h[i]; if (!m[i]->empty) h[i].copyTo(t); }
            else if (op == 12) { name = "destroy"; h.erase(h.begin() + long(i)); m.erase(m.begin() + long(i)); }
            c.count(std::string("op_") + name);
            if (!check(name)) return;
        }
        while (!h.empty()) { size_t i = r.next() % h.size(); h.erase(h.begin() + long(i)); m.erase(m.begin() + long(i)); if (!check("destroy")) return; }
    }
    // storage conservation: repeated create/drop leaves no live bytes behind
    if (idx % 16 == 0) {
        auto churn = [&](int n) { for (int q = 0; q < n; ++q) { Tensor a(Shape{300, 7}); Tensor b = a; a.allocate({200, 11}); Tensor d({200, 11}); b.copyTo(d); b = Tensor(); Tensor z = Tensor::zeros({100, 3}); float x[6]; Tensor v({2, 3}, x); v.allocate({50, 50}); } };
        churn(3); long h0 = heap_bytes(); churn(40); long h1 = heap_bytes();
        c.count("leak_probes");
        if (has_heap_bytes() && h1 - h0 > 4000) c.failf("leak", "live heap grew by %ld bytes over 40 create/drop rounds", h1 - h0);
    }
    (void)before;
}
