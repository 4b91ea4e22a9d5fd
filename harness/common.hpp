// Shared machinery of all harnesses: case loop, seeded generators, guarded tensors, comparisons,
// result reporting.  A harness defines PROP, ncases() and run_case().
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <deepworks/tensor.hpp>
#include <deepworks/initializers.hpp>
#include <deepworks/utils/assert.hpp>

namespace dw = deepworks;
using dw::Shape;
using dw::Tensor;

// ---------------------------------------------------------------- random numbers
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { for (int i = 0; i < 4; ++i) next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    int range(int lo, int hi) { return lo + int(next() % uint64_t(hi - lo + 1)); }      // inclusive
    bool chance(int num, int den) { return int(next() % uint64_t(den)) < num; }
    double unit() { return double(next() >> 11) / 9007199254740992.0; }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
    int of(std::initializer_list<int> l) { return *(l.begin() + next() % l.size()); }
    double offl(std::initializer_list<double> l) { return *(l.begin() + next() % l.size()); }
};

// The library seeds its generator from std::random_device: make that reproducible.
extern uint64_t g_device_state;

// ---------------------------------------------------------------- context
struct Violation { std::string key, msg; uint64_t c; };

struct Ctx {
    uint64_t seed = 1; bool thorough = false;
    int shard = 0, nshards = 1; long only = -1;
    std::string out, cur, work, verif, repo;
    Rng rng;
    uint64_t idx = 0, cases = 0;
    std::string d;
    std::map<std::string, long> counters;
    std::set<uint64_t> sigs;
    std::vector<std::string> samples;
    std::vector<Violation> viol;
    int curfd = -1;

    static uint64_t hash(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h ^ (h >> 29); }
    void count(const std::string& k, long n = 1) { counters[k] += n; }
    void maxi(const std::string& k, long n) { auto& x = counters["max:" + k]; if (n > x) x = n; }
    // Describes the case: "key|details".  Also what identifies distinct cases.
    void desc(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
        char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        desc(std::string(b));
    }
    void desc(const std::string& s) {
        d = s; writecur();
        if (sigs.size() < 200000) sigs.insert(hash(s));
        if (samples.size() < 3) samples.push_back("case " + std::to_string(idx) + ": " + s);
    }
    void writecur() {
        if (curfd < 0) return;
        std::string t = std::to_string(idx) + "\n" + d + "\n";
        if (ftruncate(curfd, 0) == 0) { ssize_t r = pwrite(curfd, t.data(), t.size(), 0); (void)r; }
    }
    std::string key() const { auto p = d.find('|'); return p == std::string::npos ? d : d.substr(0, p); }
    void fail(const std::string& what, const std::string& msg) {
        if (viol.size() < 40) viol.push_back({what, "case " + std::to_string(idx) + " [" + d.substr(0, 400) + "] " + msg, idx});
    }
    void failf(const std::string& what, const char* fmt, ...) __attribute__((format(printf, 3, 4))) {
        char b[1000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); fail(what, b);
    }
    // A violation with a stable identity, reported once per process (known_findings.json may list it).
    std::set<std::string> found;
    void finding(const std::string& key, const std::string& msg) { if (found.insert(key).second) fail(key, msg); }
    bool failed() const { return !viol.empty(); }
};

// Provided by each harness
extern const char* PROP;
uint64_t ncases(const Ctx&);
void run_case(Ctx&, uint64_t idx);

[[noreturn]] inline void harness_error(const std::string& m) { fprintf(stderr, "HARNESS-ERROR %s\n", m.c_str()); fflush(stderr); _exit(9); }

// ---------------------------------------------------------------- small helpers
inline std::string str(const Shape& s) { std::string r = "{"; for (size_t i = 0; i < s.size(); ++i) r += (i ? "," : "") + std::to_string(s[i]); return r + "}"; }
inline uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
inline float fbits(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
inline size_t prod(const Shape& s) { size_t n = 1; for (int d : s) n *= size_t(d); return n; }
template <class F> bool throws(F&& f, std::string* what = nullptr) {
    try { f(); } catch (const std::exception& e) { if (what) *what = e.what(); return true; } catch (...) { return true; }
    return false;
}
static const double EPS = 1.1920929e-7;   // 2^-23 (twice the unit roundoff: all bounds below have slack)

// ---------------------------------------------------------------- guarded tensors
// A tensor whose storage is surrounded by canaries (view mode, at any float alignment) or that owns
// exactly-sized heap memory (red zones by ASan).
struct GT {
    Tensor t;
    std::vector<float> buf;
    size_t off = 0, n = 0;
    std::vector<uint32_t> snap;
    static constexpr uint32_t CAN = 0x4b1dc0deu;
    GT() = default;
    GT(const GT&) = delete; GT& operator=(const GT&) = delete;
    GT(GT&& o) = default; GT& operator=(GT&& o) = default;
    void make(Rng& r, const Shape& s, int mode = -1) {
        n = prod(s);
        if (mode < 0) mode = r.range(0, 2);
        if (mode == 0) { off = 0; buf.clear(); t = Tensor(s); }
        else {
            size_t pre = 16 + size_t(r.range(0, 7));
            buf.assign(pre + n + 24, fbits(CAN));
            off = pre;
            t = Tensor(s, buf.data() + off);
            poison();
        }
    }
    void poison() { for (size_t i = 0; i < n; ++i) t.data()[i] = fbits(0x7fc0dead); }
    float* p() { return t.data(); }
    const float* p() const { return t.data(); }
    bool canaries() const {
        if (buf.empty()) return true;
        for (size_t i = 0; i < off; ++i) if (bits(buf[i]) != CAN) return false;
        for (size_t i = off + n; i < buf.size(); ++i) if (bits(buf[i]) != CAN) return false;
        return true;
    }
    void snapshot() { snap.resize(n); memcpy(snap.data(), t.data(), n * 4); }
    bool unchanged() const { return snap.size() == n && (n == 0 || memcmp(snap.data(), t.data(), n * 4) == 0); }
    std::vector<double> dbl() const { return std::vector<double>(t.data(), t.data() + n); }
};
inline std::vector<double> dbl(const Tensor& t) { return std::vector<double>(t.data(), t.data() + t.total()); }
inline std::vector<float> flt(const Tensor& t) { return std::vector<float>(t.data(), t.data() + t.total()); }
inline std::vector<uint32_t> bitsof(const Tensor& t) { std::vector<uint32_t> v(t.total()); if (!v.empty()) memcpy(v.data(), t.data(), v.size() * 4); return v; }
inline bool samebits(const Tensor& t, const std::vector<uint32_t>& v) { return t.total() == v.size() && (v.empty() || memcmp(t.data(), v.data(), v.size() * 4) == 0); }

// ---------------------------------------------------------------- value generators
enum Mode { INTS, UNI, SGN, NEG, POS, MIXED, SPARSE, CONSTV, TIES, WIDE, NMODES };
inline const char* mode_name(int m) { static const char* n[] = {"ints", "uni", "signed", "neg", "pos", "mixed", "sparse", "const", "ties", "wide"}; return n[m]; }
inline float gen1(Rng& r, int mode, float c) {
    switch (mode) {
        case INTS:   return float(r.range(-8, 8));
        case UNI:    return float(r.unit());
        case SGN:    return float(r.real(-1, 1));
        case NEG:    return -float(r.real(0.01, 3));
        case POS:    return float(r.real(0.01, 3));
        case MIXED:  { double m = std::pow(10.0, r.real(-3, 2)); return float(r.chance(1, 2) ? m : -m); }
        case SPARSE: return r.chance(4, 5) ? 0.f : float(r.real(-4, 4));
        case CONSTV: return c;
        case TIES:   return float(r.range(-1, 1)) * 0.5f;
        default:     { double m = std::pow(10.0, r.real(-6, 5)); return float(r.chance(1, 2) ? m : -m); }
    }
}
inline void fill(Rng& r, float* p, size_t n, int mode) {
    float c = float(r.range(-4, 4)) * 0.75f;
    for (size_t i = 0; i < n; ++i) p[i] = gen1(r, mode, c);
}
inline int any_mode(Rng& r) { return r.range(0, NMODES - 1); }
inline int num_mode(Rng& r) { return r.of({INTS, UNI, SGN, SGN, NEG, POS, MIXED, SPARSE}); }

// Sizes around vector widths, blocking factors and powers of two
inline int dim(Rng& r, int cap) {
    static const int v[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 19, 23, 24, 25, 31, 32, 33, 47, 48, 49, 63, 64, 65, 96, 100, 127, 128, 129,
                            200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 5000};
    int n = 0; while (n < int(sizeof v / sizeof *v) && v[n] <= cap) ++n;
    if (r.chance(1, 3)) return r.range(1, std::max(1, std::min(cap, 9)));
    if (r.chance(1, 4)) return r.range(1, cap);
    return v[r.next() % uint64_t(std::max(n, 1))];
}

// ---------------------------------------------------------------- comparisons
// got[i] must satisfy |got - ref| <= tol(i); NaN never does.
template <class Tol>
bool check_close(Ctx& c, const std::string& key, const char* what, const float* got, const std::vector<double>& ref, Tol tol) {
    c.count("values_compared", long(ref.size()));
    for (size_t i = 0; i < ref.size(); ++i) {
        double t = tol(i), g = got[i];
        if (std::fabs(g - ref[i]) <= t) continue;      // false for NaN
        if (std::isinf(ref[i]) && g == ref[i]) continue;
        if (std::isinf(t)) continue;
        c.failf(key, "%s[%zu/%zu] = %.9g, expected %.12g (tolerance %.3g)", what, i, ref.size(), g, ref[i], t);
        return false;
    }
    return true;
}
inline bool check_bits(Ctx& c, const std::string& key, const char* what, const float* got, const float* ref, size_t n) {
    c.count("values_compared", long(n));
    for (size_t i = 0; i < n; ++i)
        if (bits(got[i]) != bits(ref[i])) { c.failf(key, "%s[%zu/%zu] = %.9g (0x%08x), expected %.9g (0x%08x)", what, i, n, got[i], bits(got[i]), ref[i], bits(ref[i])); return false; }
    return true;
}

inline int open_fds() {
    int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1;
    while (readdir(d)) ++n; closedir(d); return n;
}
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
inline long heap_bytes() { return long(__sanitizer_get_current_allocated_bytes()); }
inline bool has_heap_bytes() { return true; }
#else
#include <malloc.h>
inline long heap_bytes() { struct mallinfo2 m = mallinfo2(); return long(m.uordblks + m.hblkhd); }
inline bool has_heap_bytes() { return false; }
#endif
