#include "common.hpp"
#include <deepworks/utils/utils.hpp>
const char* PROP = "C10";
uint64_t ncases(const Ctx& c) { return c.thorough ? 1500000 : 75000; }
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng;
    Shape s{dim(r, 9), dim(r, 17), dim(r, 12), dim(r, 12)};
    if (idx % 100 == 3) s = {r.range(1, 3), dim(r, 65), dim(r, 40), dim(r, 40)};
    if (idx % 500 == 5) { s = {r.range(1, 2), r.range(1, 2), r.range(1, 2), r.range(1, 2)}; s[r.next() % 4] = r.range(32760, 70000); }
    if (idx % 500 == 6) s = {r.range(1, 2), r.range(1, 4), r.range(181, 300), r.range(181, 300)};
    if (idx % 100 == 4) { s[r.next() % 4] = dim(r, 300); s[r.next() % 4] = 1; }
    Shape q{s[0], s[2], s[3], s[1]};
    c.desc("layout|%s", str(s).c_str());
    GT a, b, d; a.make(r, s); b.make(r, q); d.make(r, s);
    for (size_t i = 0; i < a.n; ++i) a.p()[i] = fbits(uint32_t(i * 2654435761u) & 0xbf7fffffu ^ uint32_t(i));
    a.snapshot(); b.poison(); d.poison();
    dw::utils::NCHW2NHWC(a.t, b.t);
    int N = s[0], C = s[1], H = s[2], W = s[3];
    auto at1 = [&](int n, int ch, int h, int w) { return ((size_t(n) * C + ch) * H + h) * W + w; };
    auto at2 = [&](int n, int ch, int h, int w) { return ((size_t(n) * H + h) * W + w) * C + ch; };
    for (int n = 0; n < N; ++n) for (int ch = 0; ch < C; ++ch) for (int h = 0; h < H; ++h) for (int w = 0; w < W; ++w)
        if (bits(b.p()[at2(n, ch, h, w)]) != bits(a.p()[at1(n, ch, h, w)])) { c.failf("NCHW2NHWC:place", "element (%d,%d,%d,%d) misplaced", n, ch, h, w); return; }
    if (!a.unchanged()) { c.fail("NCHW2NHWC:source", "source changed"); return; }
    if (!a.canaries() || !b.canaries()) { c.fail("NCHW2NHWC:outside", "memory outside written"); return; }
    if (b.t.shape() != q || a.t.shape() != s) { c.fail("NCHW2NHWC:shape", "shape changed"); return; }
    b.snapshot();
    dw::utils::NHWC2NCHW(b.t, d.t);
    for (size_t i = 0; i < a.n; ++i) if (bits(d.p()[i]) != bits(a.p()[i])) { c.failf("NHWC2NCHW:roundtrip", "element %zu differs after the round trip", i); return; }
    if (!b.unchanged() || !b.canaries() || !d.canaries()) { c.fail("NHWC2NCHW:outside", "source or outside memory changed"); return; }
    // other order, on independent data
    for (size_t i = 0; i < b.n; ++i) b.p()[i] = fbits((uint32_t(r.next()) & 0xff7fffffu) & 0xbfffffffu);
    b.snapshot(); d.poison(); dw::utils::NHWC2NCHW(b.t, d.t);
    for (int n = 0; n < N; ++n) for (int ch = 0; ch < C; ++ch) for (int h = 0; h < H; ++h) for (int w = 0; w < W; ++w)
        if (bits(d.p()[at1(n, ch, h, w)]) != bits(b.p()[at2(n, ch, h, w)])) { c.failf("NHWC2NCHW:place", "element (%d,%d,%d,%d) misplaced", n, ch, h, w); return; }
    GT e; e.make(r, q); dw::utils::NCHW2NHWC(d.t, e.t);
    for (size_t i = 0; i < b.n; ++i) if (bits(e.p()[i]) != bits(b.p()[i])) { c.failf("NCHW2NHWC:roundtrip", "element %zu differs after the round trip", i); return; }
    c.count("elements_compared", long(a.n) * 4);
}
