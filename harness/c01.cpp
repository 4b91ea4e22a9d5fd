#include "common.hpp"
const char* PROP = "C01";
uint64_t ncases(const Ctx& c) { return c.thorough ? 2400000 : 120000; }

static Shape gen_shape(Rng& r, bool zero_ok = true) {
    int rank = r.of({0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 8});
    Shape s; long lim = r.chance(1, 40) ? 400000 : 3000; long tot = 1;
    for (int i = 0; i < rank; ++i) {
        int d = r.chance(1, 4) ? 1 : dim(r, r.chance(1, 10) ? 5000 : 24);
        if (zero_ok && r.chance(1, 25)) d = 0;
        if (d > 0 && tot * d > lim) d = r.range(1, 2);
        if (d > 0) tot *= d;
        s.push_back(d);
    }
    return s;
}
static bool meta(Ctx& c, const Tensor& t, const Shape& s, const char* op) {
    std::string k = c.key();
    size_t n = prod(s);
    if (t.shape() != s) { c.failf(k + ":shape", "after %s shape() is %s, expected %s", op, str(t.shape()).c_str(), str(s).c_str()); return false; }
    if (t.total() != n) { c.failf(k + ":total", "after %s total() is %zu, expected %zu for %s", op, t.total(), n, str(s).c_str()); return false; }
    if (t.empty() != (n == 0)) { c.failf(k + ":empty", "after %s empty() is %d for %s", op, int(t.empty()), str(s).c_str()); return false; }
    if (t.strides().size() != s.size()) { c.failf(k + ":strides", "after %s %zu strides for %s", op, t.strides().size(), str(s).c_str()); return false; }
    size_t st = 1;
    for (size_t i = s.size(); i-- > 0;) {
        if (t.strides()[i] != st) { c.failf(k + ":strides", "after %s stride %zu is %zu, expected %zu for %s", op, i, t.strides()[i], st, str(s).c_str()); return false; }
        st *= size_t(s[i]);
    }
    c.count("metadata_observations");
    return true;
}
// A permutation / refactorisation of the element count
static Shape same_total(Rng& r, size_t n) {
    Shape s; 
    if (n == 0) { int k = r.range(1, 4); for (int i = 0; i < k; ++i) s.push_back(r.range(0, 4)); s[r.range(0, k - 1)] = 0; return s; }
    size_t rest = n;
    for (int i = 0; i < 6 && rest > 1; ++i) {
        std::vector<int> div; for (size_t d = 1; d <= std::min<size_t>(rest, 64); ++d) if (rest % d == 0) div.push_back(int(d));
        int d = r.pick(div); if (r.chance(1, 5)) d = 1;
        s.push_back(d); rest /= size_t(d);
    }
    if (rest > 1 || (s.empty() && r.chance(1, 2))) s.push_back(int(rest));
    for (size_t i = s.size(); i > 1; --i) std::swap(s[i - 1], s[r.next() % i]);
    return s;
}
static void huge_case(Ctx& c) {
    Rng& r = c.rng;
    // element counts beyond int range, without touching the memory
    Shape s; size_t tot = 1; int rank = r.range(2, 5);
    for (int i = 0; i < rank; ++i) { int d = r.of({1, 2, 3, 1024, 4096, 46341, 65536, 65537, 100000, 2147483647, 1 << 20, 12345}); if (double(tot) * d > 4e18) d = 1; tot *= size_t(d); s.push_back(d); }
    c.desc("huge|view %s", str(s).c_str());
    c.count("huge_shapes"); if (tot > 2147483647u) c.count("beyond_int");
    float x[4] = {1, 2, 3, 4};
    Tensor t(s, x);
    if (!meta(c, t, s, "view construction")) return;
    if (t.data() != x) c.fail("huge:data", "view does not use the caller's memory");
    Shape p = s; for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[r.next() % i]);
    t.reshape(p);
    if (!meta(c, t, p, "reshape")) return;
    // counts that are equal only modulo 2^32 / 2^31 must be rejected
    Shape q; bool have = false;
    if (r.chance(1, 2)) { q = {int(uint32_t(tot) & 0x7fffffff)}; have = prod(q) != tot; }
    else { q = p; q.push_back(r.of({2, 3, 0, -1})); have = true; }
    if (have) {
        bool th = throws([&] { t.reshape(q); });
        if (!th) c.failf("huge:accept", "reshape %s -> %s accepted although the element counts differ", str(p).c_str(), str(q).c_str());
        meta(c, t, p, "rejected reshape"); c.count("rejections");
    }
    for (float* f = x; f < x + 4; ++f) if (*f != float(f - x + 1)) c.fail("huge:data", "element changed");
}
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng;
    if (idx % 20 == 7) { huge_case(c); return; }
    if (idx % 50 == 3) {
        c.desc("default|constructed");
        Tensor t;
        if (t.total() != 0 || !t.empty() || !t.shape().empty() || !t.strides().empty()) c.fail("default:meta", "default tensor is not empty");
        if (!throws([&] { t.reshape({1}); }) || t.total() != 0) c.fail("default:reshape", "empty tensor reshaped to one element");
        Shape s = gen_shape(r); t.allocate(s); meta(c, t, s, "allocate"); return;
    }
    Shape s = gen_shape(r); size_t n = prod(s);
    int how = r.range(0, 2);
    c.desc("history|start %s how=%d", str(s).c_str(), how);
    Tensor t; std::vector<float> mem;
    if (how == 0) t = Tensor(s);
    else if (how == 1) t.allocate(s);
    else { mem.assign(n + 8, -77.f); t = Tensor(s, mem.data() + 4); }
    if (!meta(c, t, s, "creation")) return;
    if (how == 2 && t.data() != mem.data() + 4) { c.fail("view:data", "view moved"); return; }
    std::vector<float> v(n); for (size_t i = 0; i < n; ++i) { v[i] = float(i % 9973) + float(r.range(0, 9)) * 0.0625f; }
    for (size_t i = 0; i < n; ++i) t.data()[i] = v[i];
    int steps = r.range(1, 12);
    for (int k = 0; k < steps; ++k) {
        int op = r.range(0, 6);
        float* before = t.data();
        if (op <= 1) {                                   // valid reshape
            Shape q = same_total(r, n); if (prod(q) != n) harness_error("same_total");
            t.reshape(q); s = q; if (!meta(c, t, s, "reshape")) return;
            if (t.data() != before) { c.fail("reshape:moved", "reshape moved the elements"); return; }
            c.count("reshapes");
        } else if (op == 2 || op == 3) {                 // invalid reshape
            Shape q = same_total(r, n);
            int kind = r.range(0, 4);
            if (kind == 0) q.push_back(r.of({2, 3, 7}));
            else if (kind == 1 && q.size() >= 2) { q[0] = -q[0]; q[1] = -q[1]; if (q[0] >= 0 && q[1] >= 0) q[0] = -1; }
            else if (kind == 2) { q.push_back(-1); q.push_back(-1); }
            else if (kind == 3) { if (q.empty()) q = {2}; else q[r.next() % q.size()] += 1; }
            else q.push_back(-1);
            bool neg = std::any_of(q.begin(), q.end(), [](int d) { return d < 0; });
            if (!neg && prod(q) == n) continue;
            if (!throws([&] { t.reshape(q); })) { c.failf("reshape:accept", "reshape %s -> %s accepted", str(s).c_str(), str(q).c_str()); return; }
            if (!meta(c, t, s, "rejected reshape")) return;
            if (t.data() != before) { c.fail("reshape:moved", "rejected reshape moved the elements"); return; }
            c.count("rejections");
        } else if (op == 4) {                            // negative dimension
            Shape q = gen_shape(r); q.insert(q.begin() + long(r.next() % (q.size() + 1)), -r.range(1, 5));
            if (r.chance(1, 2)) q.insert(q.begin() + long(r.next() % (q.size() + 1)), -r.range(1, 5));
            if (!throws([&] { t.allocate(q); })) { c.failf("negative:allocate", "allocate %s accepted", str(q).c_str()); return; }
            if (!throws([&] { Tensor u(q); })) { c.failf("negative:construct", "Tensor(%s) accepted", str(q).c_str()); return; }
            float z = 0; if (!throws([&] { Tensor u(q, &z); })) { c.failf("negative:view", "view %s accepted", str(q).c_str()); return; }
            if (!meta(c, t, s, "rejected allocate") || t.data() != before) { c.fail("negative:state", "rejected allocate changed the tensor"); return; }
            c.count("rejections");
        } else if (op == 5 && k + 1 < steps) {           // reallocation
            s = gen_shape(r); n = prod(s); t.allocate(s); if (!meta(c, t, s, "allocate")) return;
            v.resize(n); for (size_t i = 0; i < n; ++i) { v[i] = float(i % 8191) - 3.5f; t.data()[i] = v[i]; }
            c.count("allocations");
        } else if (op == 6 && n <= 300) {                // printing
            std::ostringstream o; o << t; std::string q = o.str(); std::vector<double> got; std::string tok;
            for (char& ch : q) if (ch == '[' || ch == ']' || ch == ',') ch = ' ';
            std::istringstream is(q); double d; while (is >> d) got.push_back(d);
            if (got.size() != n) { c.failf("print:count", "printed %zu numbers for %zu elements", got.size(), n); return; }
            for (size_t i = 0; i < n; ++i) if (std::fabs(got[i] - v[i]) > 1e-4 * (1 + std::fabs(v[i]))) { c.failf("print:order", "printed element %zu is %g, expected %g", i, got[i], v[i]); return; }
            c.count("prints");
        }
        for (size_t i = 0; i < n; ++i) if (bits(t.data()[i]) != bits(v[i])) { c.failf("elements:changed", "element %zu changed from %g to %g at step %d", i, v[i], t.data()[i], k); return; }
        c.count("element_checks", long(n));
    }
    if (how == 2) for (int i = 0; i < 4; ++i) if (mem[size_t(i)] != -77.f || mem[mem.size() - 1 - size_t(i)] != -77.f) c.fail("view:outside", "memory outside the view changed");
}
