#include "images.hpp"
const char* PROP = "C24";
uint64_t ncases(const Ctx& c) { return c.thorough ? 720000 : 36000; }
void run_case(Ctx& c, uint64_t) {
    Rng& r = c.rng; Img im = make_image(r, r.chance(1, 800) ? 0 : r.chance(1, 6) ? 200 : 40);
    std::string key = im.png ? "png" : "jpeg", ext = ext_of(r, im.png), dir = c.work, name;
    int nm = r.range(0, 4);
    if (nm == 0) { dir += "/d.ir"; mkdir(dir.c_str(), 0755); }
    name = nm == 1 ? std::string(size_t(r.range(20, 180)), 'n') : nm == 2 ? "a b.c.png.x" : "img" + std::to_string(c.idx % 7);
    std::string path = dir + "/" + name + ext;
    put_file(path, im.file);
    bool view = r.chance(1, 3); int dst = r.range(0, 3);
    c.desc("%s|%s ext=%s name=%d view=%d dst=%d", key.c_str(), im.d.c_str(), ext.c_str(), nm, int(view), dst);
    // the path as a piece of a larger, not NUL-terminated buffer
    std::vector<char> big; std::string_view pv = path;
    if (view) { big.assign(path.begin(), path.end()); if (r.chance(1, 2)) { std::string tail = ".bak"; big.insert(big.end(), tail.begin(), tail.end()); } big.shrink_to_fit(); pv = std::string_view(big.data(), path.size()); c.count("path_views"); }
    size_t at = 0; Shape sh{im.h, im.w, im.ch};
    auto bad = [&](const Tensor& t, const char* how) { if (same_pixels(t, im, &at)) return false; if (t.total() != im.want.size()) c.failf(key + ":size", "%s: %zu elements, expected %zu", how, t.total(), im.want.size()); else c.failf(key + ":pixel", "%s: element %zu is %g, expected %d", how, at, t.data()[at], im.want[at]); return true; };
    int fds = open_fds();
    if (dst == 0) { Tensor t = dw::io::ReadImage(pv); if (bad(t, "returned")) return; if (t.shape() != sh) { c.fail(key + ":shape", "shape " + str(t.shape()) + ", expected " + str(sh)); return; } }
    else if (dst == 1) { Tensor t; dw::io::ReadImage(pv, t); if (bad(t, "into an empty tensor")) return; if (t.shape() != sh) { c.fail(key + ":shape", "shape " + str(t.shape()) + ", expected " + str(sh)); return; } }
    else {
        Shape s2 = sh; if (dst == 3) s2 = r.chance(1, 2) ? Shape{1, im.h, im.w, im.ch} : Shape{im.h * im.w * im.ch};
        GT g; g.make(r, s2); Tensor t = g.t; dw::io::ReadImage(pv, t);
        if (t.data() != g.p() || t.shape() != s2) { c.fail(key + ":in-place", "an allocated destination was replaced or reshaped"); return; }
        if (!g.canaries()) { c.fail(key + ":outside", "wrote outside the destination"); return; }
        if (bad(t, "into an allocated tensor")) return; c.count("in_place");
    }
    if (open_fds() != fds) { c.fail(key + ":fd", "a file was left open"); return; }
    c.count(key); c.count("pixels", long(im.want.size()));
    unlink(path.c_str());
}
