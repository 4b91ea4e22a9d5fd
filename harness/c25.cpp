#include "images.hpp"
const char* PROP = "C25";
uint64_t ncases(const Ctx& c) { return c.thorough ? 480000 : 24000; }
static uint32_t crc(const unsigned char* p, size_t n) { uint32_t c = ~0u; for (size_t i = 0; i < n; ++i) { c ^= p[i]; for (int k = 0; k < 8; ++k) c = c & 1 ? 0xEDB88320u ^ (c >> 1) : c >> 1; } return ~c; }
// Recomputes every chunk CRC, so that the damage reaches the decoder.
static void fix_crcs(Bytes& b) {
    size_t p = 8; while (p + 12 <= b.size()) { size_t n = size_t(b[p]) << 24 | size_t(b[p + 1]) << 16 | size_t(b[p + 2]) << 8 | b[p + 3]; if (n > b.size() - p - 12) break; uint32_t c = crc(&b[p + 4], n + 4); for (int k = 0; k < 4; ++k) b[p + 8 + n + size_t(k)] = (unsigned char)(c >> (24 - 8 * k)); p += 12 + n; }
}
// Keeps damaged headers from declaring images too large to decode in reasonable time.
static void clamp_dims(Bytes& b, bool png) {
    if (png) { if (b.size() >= 24) { b[16] = b[17] = b[20] = b[21] = 0; b[18] &= 0x0f; b[22] &= 0x0f; } }
    else for (size_t i = 0; i + 9 < b.size(); ++i) if (b[i] == 0xff && b[i + 1] >= 0xc0 && b[i + 1] <= 0xcf) { b[i + 5] &= 0x07; b[i + 7] &= 0x07; }
}
void run_case(Ctx& c, uint64_t idx) {
    Rng& r = c.rng; Img im = make_image(r, 24); bool png = im.png; std::string ext = ext_of(r, png), path = c.work + "/f" + std::to_string(idx % 5) + ext, key = png ? "png" : "jpeg";
    int kind = int(idx % 10); std::string what; bool must = false, unchanged = false; Bytes b = im.file;
    unlink(path.c_str());
    GT g; bool alloc = r.chance(1, 3);
    Shape sh{im.h, im.w, im.ch};
    switch (kind) {
        case 0: what = "missing"; must = unchanged = true; if (r.chance(1, 4)) { path = c.work + "/no/such/dir/x" + ext; } else if (r.chance(1, 4)) { path = c.work + "/" + std::string(300, 'x') + ext; } break;
        case 1: what = "empty"; must = true; b.clear(); break;
        case 2: { what = "garbage"; must = true; b.resize(size_t(r.range(1, 600))); for (auto& x : b) x = (unsigned char)r.next(); if (r.chance(1, 3) && b.size() >= 8) { static const unsigned char sg[] = {137, 80, 78, 71, 13, 10, 26, 10}; if (png) std::copy(sg, sg + 8, b.begin()); else { b[0] = 0xff; b[1] = 0xd8; b[2] = 0xff; } must = png; } clamp_dims(b, png); break; }
        case 3: { what = "swapped"; must = true; path = c.work + "/s" + (png ? ".jpg" : ".png"); key = png ? "jpeg" : "png"; break; }
        case 4: case 5: { what = "truncated"; b.resize(r.next() % b.size()); if (r.chance(1, 4)) b.resize(std::min<size_t>(b.size(), size_t(r.range(0, 60)))); break; }
        case 6: case 7: { what = "flipped"; int n = r.of({1, 1, 2, 5, 30}); for (int k = 0; k < n; ++k) { size_t p = r.chance(1, 2) ? r.next() % b.size() : r.next() % std::min<size_t>(b.size(), 80); b[p] ^= (unsigned char)(r.chance(1, 2) ? 1u << r.range(0, 7) : r.next()); } clamp_dims(b, png); if (png && r.chance(3, 4)) fix_crcs(b); if (r.chance(1, 6)) b.resize(r.next() % b.size() + 1); break; }
        case 8: { what = "mismatch"; must = unchanged = true; alloc = true; break; }
        default: { what = r.chance(1, 2) ? "extension" : "directory"; must = true; if (what == "extension") { unchanged = true; path = c.work + "/e" + (r.chance(1, 2) ? ".bmp" : r.chance(1, 2) ? ".pn" : ".tiff"); } }
    }
    c.desc("%s-%s|%s -> %zu bytes, alloc=%d", key.c_str(), what.c_str(), im.d.c_str(), b.size(), int(alloc));
    if (what == "directory") mkdir(path.c_str(), 0755); else if (what != "missing") put_file(path, b);
    if (alloc) {
        Shape s = sh;
        if (what == "mismatch") { int k = r.range(0, 4); if (k == 0) s[0] += 1; else if (k == 1) s[2] += 1; else if (k == 2) s = {1}; else if (k == 3) s = {im.h * im.w * im.ch * 2}; else s = {im.h, im.w, im.ch, 3}; if (prod(s) == prod(sh)) s[0] += 1; }
        g.make(r, s); fill(r, g.p(), g.n, SGN); g.snapshot();
    }
    Img ref; ref.want.clear(); bool refok = false;
    if (what == "truncated" || what == "flipped" || what == "garbage") refok = png ? ref_png(b, ref) : ref_jpeg(b, ref);
    long h1 = 0, h2 = 0; int fds = open_fds(); bool threw = false;
    for (int rep = 0; rep < 3; ++rep) {
        {
            Tensor t; if (alloc) t = g.t;
            bool th = throws([&] { if (alloc || r.chance(1, 2)) dw::io::ReadImage(path, t); else t = dw::io::ReadImage(path); });
            if (rep && th != threw) { c.fail(key + "-" + what + ":unstable", "the same read both succeeded and failed"); return; }
            threw = th;
            if (must && !th) { c.fail(key + "-" + what + ":accepted", "no exception"); return; }
            if (!th) {
                c.count("decoded_damaged");
                if (!refok) { c.fail(key + "-" + what + ":decoded", "the reader returned an image where the decoder reports an error"); return; }
                if (!same_pixels(t, ref)) { c.fail(key + "-" + what + ":pixels", "the result differs from the decoder's"); return; }
            } else c.count("exceptions");
            if (alloc) { if (!g.canaries()) { c.fail(key + "-" + what + ":outside", "wrote outside the destination"); return; } if (unchanged && !g.unchanged()) { c.fail(key + "-" + what + ":modified", "destination modified"); return; } }
            else if (th && unchanged && !t.empty()) { c.fail(key + "-" + what + ":modified", "destination allocated by a failed read"); return; }
        }
        (rep == 0 ? h1 : h2) = heap_bytes();
        if (open_fds() != fds) { c.fail(key + "-" + what + ":fd", "a file was left open"); return; }
    }
    if (has_heap_bytes() && h2 != h1) { c.failf(key + "-" + what + ":leak", "two more reads of the same file grew the heap by %ld bytes", h2 - h1); return; }
    c.count(what); c.count("leak_checks");
    if (what == "directory") rmdir(path.c_str()); else unlink(path.c_str());
    // the reader still works
    if (idx % 4 == 0 || kind == 8) { std::string p = c.work + "/ok" + (png ? ".png" : ".jpg"); put_file(p, im.file); Tensor t = dw::io::ReadImage(p); if (!same_pixels(t, im)) c.fail(key + ":afterwards", "a valid image is misread after a failed read"); c.count("reads_after"); }
}
