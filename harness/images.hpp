// Image workload: builds PNG/JPEG files from known pixels and decodes them with an independent use of
// the codec libraries.
#pragma once
#include "common.hpp"
#include <deepworks/image_reader.hpp>
#include <csetjmp>
#include <png.h>
#include <jpeglib.h>
using Bytes = std::vector<unsigned char>;

struct Img { bool png = true; int w = 1, h = 1, ch = 3; std::vector<int> want; Bytes file; std::string d; bool exact = true; };

inline void put_file(const std::string& p, const Bytes& b) {
    FILE* f = fopen(p.c_str(), "wb"); if (!f || (b.size() && fwrite(b.data(), 1, b.size(), f) != b.size()) || fclose(f)) harness_error("cannot write " + p);
}
inline void png_out(png_structp p, png_bytep d, png_size_t n) { auto* b = static_cast<Bytes*>(png_get_io_ptr(p)); b->insert(b->end(), d, d + n); }

// pixel pattern: 0 noise 1 gradient 2 constant 3 extremes
inline int pix(Rng& r, int pat, int x, int y, int c, int maxv) {
    switch (pat) { case 0: return int(r.next() % uint64_t(maxv + 1)); case 1: return (x * 3 + y * 5 + c * 70) % (maxv + 1); case 2: return maxv * (c + 1) / 5; default: return r.chance(1, 2) ? 0 : maxv; }
}
// cap 0: one side near or beyond 16 bits
template <class I> void img_size(Rng& r, int cap, I& im) { if (cap) { im.w = dim(r, cap); im.h = dim(r, cap); return; } im.w = r.range(1, 4); im.h = r.of({r.range(4000, 33000), r.range(32700, 65400), im.png ? r.range(65500, 100000) : 65500}); if (r.chance(1, 2)) std::swap(im.w, im.h); }
inline Img make_png(Rng& r, int cap) {
    Img im; im.png = true; img_size(r, cap, im);
    static const int types[] = {PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_GRAY_ALPHA, PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_RGB_ALPHA, PNG_COLOR_TYPE_PALETTE, PNG_COLOR_TYPE_RGB};
    int ct = types[r.next() % 6]; int depth;
    if (ct == PNG_COLOR_TYPE_GRAY) depth = r.of({1, 2, 4, 8, 8, 16}); else if (ct == PNG_COLOR_TYPE_PALETTE) depth = r.of({1, 2, 4, 8}); else depth = r.of({8, 8, 8, 16});
    bool inter = r.chance(1, 3), trns = false; int pat = r.range(0, 3), level = r.range(0, 9);
    int sc = ct == PNG_COLOR_TYPE_GRAY || ct == PNG_COLOR_TYPE_PALETTE ? 1 : ct == PNG_COLOR_TYPE_GRAY_ALPHA ? 2 : ct == PNG_COLOR_TYPE_RGB ? 3 : 4;
    im.ch = ct == PNG_COLOR_TYPE_PALETTE ? 3 : sc;
    png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr); png_infop inf = png_create_info_struct(p);
    if (!p || !inf) harness_error("png write struct");
    if (setjmp(png_jmpbuf(p))) harness_error("png encoding failed");
    png_set_write_fn(p, &im.file, png_out, nullptr);
    png_set_compression_level(p, level);
    png_set_IHDR(p, inf, png_uint_32(im.w), png_uint_32(im.h), depth, ct, inter ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
    int maxv = (1 << depth) - 1, npal = 0; std::vector<png_color> pal;
    if (ct == PNG_COLOR_TYPE_PALETTE) { npal = r.chance(1, 2) ? maxv + 1 : r.range(1, maxv + 1); for (int i = 0; i < npal; ++i) pal.push_back({png_byte(r.next()), png_byte(r.next()), png_byte(r.next())}); png_set_PLTE(p, inf, pal.data(), npal); maxv = npal - 1; }
    if (r.chance(1, 4)) { png_text t{}; t.compression = PNG_TEXT_COMPRESSION_NONE; t.key = const_cast<char*>("Comment"); t.text = const_cast<char*>("verification"); t.text_length = 12; png_set_text(p, inf, &t, 1); }
    // ancillary chunks that must not change the returned pixels
    if (r.chance(1, 4)) png_set_gAMA(p, inf, r.offl({0.45455, 1.0, 0.5, 2.2, 0.1}));
    else if (r.chance(1, 10)) png_set_sRGB(p, inf, r.range(0, 3));
    else if (r.chance(1, 10)) png_set_cHRM(p, inf, 0.3127, 0.329, 0.64, 0.33, 0.21, 0.71, 0.15, 0.06);
    if (ct != PNG_COLOR_TYPE_PALETTE && r.chance(1, 6)) { png_color_16 b{}; b.red = b.green = b.blue = b.gray = png_uint_16(r.range(0, (1 << depth) - 1)); png_set_bKGD(p, inf, &b); }
    if (r.chance(1, 8)) { png_color_8 sb{}; int m = ct == PNG_COLOR_TYPE_PALETTE ? 8 : depth; sb.red = sb.green = sb.blue = sb.gray = sb.alpha = png_byte(r.range(1, m)); png_set_sBIT(p, inf, &sb); }
    if ((ct == PNG_COLOR_TYPE_GRAY || ct == PNG_COLOR_TYPE_RGB) && r.chance(1, 3)) { png_color_16 t{}; int v = pat == 3 ? 0 : r.range(0, (1 << depth) - 1); t.red = t.green = t.blue = t.gray = png_uint_16(v); png_set_tRNS(p, inf, nullptr, 0, &t); trns = true; }
    if (r.chance(1, 12)) { png_time t{}; t.year = 2020; t.month = 5; t.day = 17; png_set_tIME(p, inf, &t); }
    if (r.chance(1, 4)) png_set_filter(p, 0, r.of({PNG_FILTER_NONE, PNG_FILTER_SUB, PNG_FILTER_UP, PNG_FILTER_AVG, PNG_FILTER_PAETH, PNG_ALL_FILTERS}));
    if (r.chance(1, 6)) png_set_pHYs(p, inf, 3000, 3000, PNG_RESOLUTION_METER);
    png_write_info(p, inf);
    size_t rb = (size_t(im.w) * size_t(sc) * size_t(depth) + 7) / 8; std::vector<Bytes> rows(size_t(im.h), Bytes(rb)); std::vector<png_bytep> rp;
    for (int y = 0; y < im.h; ++y) {
        auto& row = rows[size_t(y)];
        for (int x = 0; x < im.w; ++x) for (int c = 0; c < sc; ++c) {
            int v = pix(r, pat, x, y, c, maxv); size_t s = size_t(x) * size_t(sc) + size_t(c);
            if (depth == 16) { row[2 * s] = png_byte(v >> 8); row[2 * s + 1] = png_byte(v); im.want.push_back(v >> 8); }
            else if (depth == 8) { row[s] = png_byte(v); if (ct != PNG_COLOR_TYPE_PALETTE) im.want.push_back(v); }
            else { size_t bit = s * size_t(depth); row[bit / 8] = png_byte(row[bit / 8] | v << (8 - depth - int(bit % 8))); if (ct != PNG_COLOR_TYPE_PALETTE) im.want.push_back(v * 255 / ((1 << depth) - 1)); }
            if (ct == PNG_COLOR_TYPE_PALETTE) { im.want.push_back(pal[size_t(v)].red); im.want.push_back(pal[size_t(v)].green); im.want.push_back(pal[size_t(v)].blue); }
        }
        rp.push_back(row.data());
    }
    png_write_image(p, rp.data()); png_write_end(p, nullptr); png_destroy_write_struct(&p, &inf);
    char b[160]; snprintf(b, sizeof b, "png %dx%d type=%d depth=%d%s%s pattern=%d level=%d", im.w, im.h, ct, depth, inter ? " interlaced" : "", trns ? " tRNS" : "", pat, level); im.d = b;
    return im;
}
// ---- reference decoders (pixels or nothing)
struct JErr { jpeg_error_mgr m; jmp_buf j; };
inline void jexit(j_common_ptr c) { longjmp(reinterpret_cast<JErr*>(c->err)->j, 1); }
inline void jquiet(j_common_ptr) {}
inline bool ref_jpeg(const Bytes& f, Img& im) {
    static jpeg_decompress_struct c; static JErr e; static Bytes row; row.clear(); c = {};
    c.err = jpeg_std_error(&e.m); e.m.error_exit = jexit; e.m.output_message = jquiet; im.want.clear();
    if (setjmp(e.j)) { jpeg_destroy_decompress(&c); return false; }
    jpeg_create_decompress(&c); jpeg_mem_src(&c, f.data(), f.size());
    jpeg_read_header(&c, TRUE); jpeg_start_decompress(&c);
    im.w = int(c.output_width); im.h = int(c.output_height); im.ch = c.output_components;
    row.resize(size_t(im.w) * size_t(im.ch));
    while (c.output_scanline < c.output_height) { JSAMPROW rp = row.data(); jpeg_read_scanlines(&c, &rp, 1); im.want.insert(im.want.end(), row.begin(), row.end()); }
    jpeg_finish_decompress(&c); jpeg_destroy_decompress(&c); return true;
}
struct PIn { const Bytes* b; size_t pos; };
inline void png_in(png_structp p, png_bytep d, png_size_t n) { auto* s = static_cast<PIn*>(png_get_io_ptr(p)); if (s->b->size() - s->pos < n) png_error(p, "eof"); memcpy(d, s->b->data() + s->pos, n); s->pos += n; }
inline bool ref_png(const Bytes& f, Img& im) {
    static png_structp p; static png_infop inf; static PIn in; static Bytes px; static std::vector<png_bytep> rows; static int w, h, ch;
    im.want.clear(); px.clear(); rows.clear();
    p = png_create_read_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, [](png_structp, png_const_charp) {}); inf = png_create_info_struct(p); in = {&f, 0};
    if (setjmp(png_jmpbuf(p))) { png_destroy_read_struct(&p, &inf, nullptr); return false; }
    png_set_read_fn(p, &in, png_in); png_read_info(p, inf);
    int ct = png_get_color_type(p, inf), bd = png_get_bit_depth(p, inf);
    if (ct == PNG_COLOR_TYPE_PALETTE) png_set_palette_to_rgb(p); else if (ct == PNG_COLOR_TYPE_GRAY && bd < 8) png_set_expand_gray_1_2_4_to_8(p);
    if (bd == 16) png_set_strip_16(p);
    png_set_interlace_handling(p); png_read_update_info(p, inf);
    w = int(png_get_image_width(p, inf)); h = int(png_get_image_height(p, inf)); ch = png_get_channels(p, inf);
    size_t rb = png_get_rowbytes(p, inf); if (double(rb) * h > 3e8) { png_destroy_read_struct(&p, &inf, nullptr); return false; }
    px.resize(rb * size_t(h)); for (int y = 0; y < h; ++y) rows.push_back(px.data() + size_t(y) * rb);
    png_read_image(p, rows.data());
    im.w = w; im.h = h; im.ch = ch; im.want.assign(px.begin(), px.end());
    png_destroy_read_struct(&p, &inf, nullptr); return true;
}
inline Img make_jpeg(Rng& r, int cap) {
    Img im; im.png = false; img_size(r, cap, im);
    int kind = r.range(0, 3), q = r.of({1, 10, 50, 75, 90, 95, 100, 100}), pat = r.of({0, 1, 1, 2, 2, 3}); bool prog = r.chance(1, 4), s444 = r.chance(1, 2), arith = r.chance(1, 10); int special = 0; bool sub = false;
    im.ch = kind == 0 ? 1 : kind == 3 ? 4 : 3; im.exact = false;
    jpeg_compress_struct c; jpeg_error_mgr e; c.err = jpeg_std_error(&e);
    e.error_exit = [](j_common_ptr x) { char b[JMSG_LENGTH_MAX]; x->err->format_message(x, b); harness_error(std::string("own jpeg encoder: ") + b); }; jpeg_create_compress(&c);
    unsigned char* out = nullptr; unsigned long n = 0; jpeg_mem_dest(&c, &out, &n);
    c.image_width = JDIMENSION(im.w); c.image_height = JDIMENSION(im.h); c.input_components = im.ch; c.in_color_space = im.ch == 1 ? JCS_GRAYSCALE : im.ch == 4 ? JCS_CMYK : JCS_RGB;
    jpeg_set_defaults(&c);
    if (im.ch == 4 && r.chance(1, 2)) { jpeg_set_colorspace(&c, JCS_YCCK); special = 1; } else if (im.ch == 3 && r.chance(1, 4)) { jpeg_set_colorspace(&c, JCS_RGB); special = 2; }
    jpeg_set_quality(&c, q, TRUE);
    if (prog) jpeg_simple_progression(&c);
    if (s444) for (int i = 0; i < c.num_components; ++i) c.comp_info[i].h_samp_factor = c.comp_info[i].v_samp_factor = 1;
    if (!s444 && special != 2 && r.chance(1, 2)) { sub = true; c.comp_info[0].h_samp_factor = r.range(1, 2); c.comp_info[0].v_samp_factor = r.range(1, 2); }
    if (arith) { c.arith_code = TRUE; c.restart_interval = 0; }
    if (r.chance(1, 10)) c.dct_method = JDCT_FLOAT;
    if (r.chance(1, 4)) c.restart_interval = unsigned(r.range(1, 8));
    if (!arith && r.chance(1, 3)) c.optimize_coding = TRUE;
    jpeg_start_compress(&c, TRUE);
    if (r.chance(1, 4)) { static const unsigned char ex[] = {'E', 'x', 'i', 'f', 0, 0, 'M', 'M', 0, 42, 0, 0, 0, 8, 0, 1, 1, 18, 0, 3, 0, 0, 0, 1, 0, 6, 0, 0, 0, 0, 0, 0}; jpeg_write_marker(&c, JPEG_APP0 + 1, ex, sizeof ex); }     // orientation 6: pixels stay as stored
    if (r.chance(1, 6)) jpeg_write_marker(&c, JPEG_COM, reinterpret_cast<const JOCTET*>("comment"), 7);
    Bytes row(size_t(im.w) * size_t(im.ch)); std::vector<int> src;
    while (c.next_scanline < c.image_height) { int y = int(c.next_scanline); for (int x = 0; x < im.w; ++x) for (int k = 0; k < im.ch; ++k) row[size_t(x) * size_t(im.ch) + size_t(k)] = (unsigned char)pix(r, pat, x, y, k, 255); src.insert(src.end(), row.begin(), row.end()); JSAMPROW rp = row.data(); jpeg_write_scanlines(&c, &rp, 1); }
    jpeg_finish_compress(&c); jpeg_destroy_compress(&c); im.file.assign(out, out + n); free(out);
    int w = im.w, h = im.h, ch = im.ch;
    if (!ref_jpeg(im.file, im) || im.w != w || im.h != h || im.ch != ch) harness_error("own jpeg does not decode");
    if (q == 100 && s444 && pat == 2 && ch != 4) for (size_t i = 0; i < src.size(); ++i) if (std::abs(src[i] - im.want[i]) > 8) harness_error("jpeg oracle far from source");
    char b[160]; snprintf(b, sizeof b, "jpeg %dx%d ch=%d q=%d%s%s%s%s pattern=%d", im.w, im.h, im.ch, q, prog ? " progressive" : "", s444 ? " 444" : sub ? " sampled" : "", special == 1 ? " ycck" : special == 2 ? " rgb" : "", arith ? " arithmetic" : "", pat); im.d = b;
    return im;
}
inline Img make_image(Rng& r, int cap) { return r.chance(1, 2) ? make_png(r, cap) : make_jpeg(r, cap); }
inline std::string ext_of(Rng& r, bool png) { return png ? ".png" : r.chance(1, 2) ? ".jpg" : ".jpeg"; }
inline bool same_pixels(const Tensor& t, const Img& im, size_t* at = nullptr) {
    if (t.total() != im.want.size()) return false;
    for (size_t i = 0; i < im.want.size(); ++i) if (t.data()[i] != float(im.want[i])) { if (at) *at = i; return false; }
    return true;
}
