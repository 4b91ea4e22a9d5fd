#include "common.hpp"

uint64_t g_device_state = 88172645463325252ull;

// Interposed: std::random_device{}() -> reproducible stream.
unsigned int std::random_device::_M_getval() {
    uint64_t z = __atomic_add_fetch(&g_device_state, 0x9E3779B97F4A7C15ull, __ATOMIC_RELAXED);       // called from any thread
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return unsigned((z ^ (z >> 31)) >> 16);
}

static std::string esc(const std::string& s) {
    std::string r;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += char(ch); }
        else if (ch < 0x20 || ch > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
        else r += char(ch);
    }
    return r;
}

int main(int argc, char** argv) {
    Ctx c;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") c.seed = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--tier") c.thorough = v == "thorough";
        else if (a == "--shard") c.shard = atoi(v.c_str());
        else if (a == "--nshards") c.nshards = atoi(v.c_str());
        else if (a == "--only") c.only = atol(v.c_str());
        else if (a == "--out") c.out = v;
        else if (a == "--cur") c.cur = v;
        else if (a == "--work") c.work = v;
        else if (a == "--verif") c.verif = v;
        else if (a == "--repo") c.repo = v;
        else harness_error("argument " + a);
    }
    if (!c.cur.empty()) c.curfd = open(c.cur.c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0644);
    g_device_state ^= c.seed * 0x9E3779B97F4A7C15ull + uint64_t(c.shard) * 7919;
    uint64_t n = ncases(c);
    for (uint64_t i = 0; i < n; ++i) {
        if (c.only >= 0 ? long(i) != c.only : int(i % uint64_t(c.nshards)) != c.shard) continue;
        c.idx = i;
        c.d = "start"; c.writecur();
        c.rng = Rng(Ctx::hash(std::string(PROP) + ":" + std::to_string(c.seed) + ":" + std::to_string(i)));
        try {
            run_case(c, i);
        } catch (const std::exception& e) {
            c.fail(c.key() + ":exception", std::string("unexpected exception: ") + e.what());
        } catch (...) {
            c.fail(c.key() + ":exception", "unexpected exception");
        }
        c.cases++;
        if (c.viol.size() >= 10 + c.found.size()) break;
    }
    std::ostringstream o;
    o << "{\"complete\": true, \"cases\": " << c.cases << ", \"counters\": {";
    bool f = true;
    for (auto& [k, v] : c.counters) { o << (f ? "" : ", ") << "\"" << esc(k) << "\": " << v; f = false; }
    o << "}, \"sigs\": ["; f = true;
    for (auto s : c.sigs) { o << (f ? "" : ",") << (s >> 12); f = false; }
    o << "], \"samples\": ["; f = true;
    for (auto& s : c.samples) { o << (f ? "" : ", ") << "\"" << esc(s) << "\""; f = false; }
    o << "], \"violations\": ["; f = true;
    for (auto& v : c.viol) { o << (f ? "" : ", ") << "{\"key\": \"" << esc(v.key) << "\", \"msg\": \"" << esc(v.msg) << "\", \"case\": " << v.c << "}"; f = false; }
    o << "]}\n";
    std::string s = o.str(), tmp = c.out + ".tmp";
    FILE* fp = fopen(tmp.c_str(), "wb");
    if (!fp || fwrite(s.data(), 1, s.size(), fp) != s.size() || fclose(fp)) harness_error("cannot write result");
    if (rename(tmp.c_str(), c.out.c_str())) harness_error("cannot rename result");
    fflush(nullptr);
    _exit(c.viol.empty() ? 0 : 1);
}
