// Images: encoders into memory, reference decoders, damage, and one read of the library.
#pragma once
#include "ser.hpp"
#include <csetjmp>
#include <cstdio>
#include <deepworks/image_reader.hpp>
#include <string_view>
#include <jpeglib.h>
#include <png.h>
#include <unistd.h>

struct Img { int w = 0, h = 0, c = 0; std::vector<uint8_t> px; bool ok = false; };

// ---------------------------------------------------------------- PNG
inline void png_quiet(png_structp, png_const_charp) {}
inline void png_out(png_structp p, png_bytep b, size_t n) { ((std::string*)png_get_io_ptr(p))->append((char*)b, n); }
inline void png_noflush(png_structp) {}
struct PngIn { const std::string* s; size_t pos; };
inline void png_in(png_structp p, png_bytep b, size_t n) {
    PngIn* i = (PngIn*)png_get_io_ptr(p);
    if (i->s->size() - i->pos < n) png_error(p, "end of data");
    memcpy(b, i->s->data() + i->pos, n);
    i->pos += n;
}
// Encode and return the pixels a reader must deliver (alternative low bytes for 16-bit samples in alt).
inline std::string png_make(const Line& l, Img& want, Img& alt) {
    int w = (int)l.i("w", 1), h = (int)l.i("h", 1), ct = (int)l.i("ct", 2), depth = (int)l.i("depth", 8);
    sim::Rng r(l.u("px", 1));
    int kind = (int)r.below(3);                       // noise, smooth, flat
    int ch = ct == PNG_COLOR_TYPE_GRAY || ct == PNG_COLOR_TYPE_PALETTE ? 1 : ct == PNG_COLOR_TYPE_GRAY_ALPHA ? 2 : ct == PNG_COLOR_TYPE_RGB ? 3 : 4;
    int maxv = (1 << depth) - 1, npal = ct == PNG_COLOR_TYPE_PALETTE ? std::min(1 << depth, (int)r.range(1, 256)) : 0;
    std::vector<int> v((size_t)w * h * ch);
    for (size_t i = 0; i < v.size(); ++i) {
        int x = kind == 0 ? (int)r.below(maxv + 1) : kind == 1 ? (int)((i * 7 + r.below(3)) % (maxv + 1)) : (maxv / 2);
        if (npal) x %= npal;
        v[i] = x;
    }
    png_color pal[256];
    for (int i = 0; i < 256; ++i) pal[i] = {(png_byte)r.below(256), (png_byte)r.below(256), (png_byte)r.below(256)};
    std::string out;
    std::vector<std::vector<png_byte>> rows(h);
    std::vector<png_bytep> rp(h);
    for (int y = 0; y < h; ++y) {
        std::vector<png_byte>& q = rows[y];
        size_t bits = (size_t)w * ch * depth;
        q.assign((bits + 7) / 8 + 8, 0);
        for (int x = 0; x < w * ch; ++x) {
            int val = v[(size_t)y * w * ch + x];
            if (depth == 16) { q[2 * x] = val >> 8; q[2 * x + 1] = val & 255; }
            else if (depth == 8) q[x] = val;
            else { size_t b = (size_t)x * depth; q[b / 8] |= val << (8 - depth - b % 8); }
        }
        rp[y] = q.data();
    }
    png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, png_quiet, png_quiet);
    png_infop in = png_create_info_struct(p);
    if (setjmp(png_jmpbuf(p))) sim::violation("harness", "cannot encode the PNG");
    png_set_write_fn(p, &out, png_out, png_noflush);
    png_set_IHDR(p, in, w, h, depth, ct, l.i("lace") ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
    if (npal) png_set_PLTE(p, in, pal, npal);
    png_set_compression_level(p, (int)l.i("level", 6));
    if (l.has("buf")) png_set_compression_buffer_size(p, std::max(6L, l.i("buf")));
    if (l.i("text")) {
        static char key[] = "Comment", val[] = "some text that takes a chunk of its own";
        png_text t{};
        t.compression = PNG_TEXT_COMPRESSION_NONE;
        t.key = key;
        t.text = val;
        png_set_text(p, in, &t, 1);
    }
    png_write_info(p, in);
    png_write_image(p, rp.data());
    png_write_end(p, in);
    png_destroy_write_struct(&p, &in);
    want.ok = alt.ok = true;
    want.w = alt.w = w;
    want.h = alt.h = h;
    want.c = alt.c = npal ? 3 : ch;
    for (int x : v) {
        if (npal) { for (int k : {pal[x].red, pal[x].green, pal[x].blue}) { want.px.push_back(k); alt.px.push_back(k); } }
        else if (depth == 16) { want.px.push_back(x >> 8); alt.px.push_back((x * 255L + 32767) / 65535); }
        else { want.px.push_back(x * 255 / maxv); alt.px.push_back(x * 255 / maxv); }
    }
    return out;
}
// Decode as documented: 8 bits per sample, palette as RGB.
inline Img png_reference(const std::string& s, bool scale16) {
    Img g;
    if (s.size() < 8 || png_sig_cmp((png_const_bytep)s.data(), 0, 8)) return g;
    png_structp p = png_create_read_struct(PNG_LIBPNG_VER_STRING, nullptr, png_quiet, png_quiet);
    png_infop in = png_create_info_struct(p);
    PngIn src{&s, 0};
    std::vector<png_bytep> rp;
    volatile bool ok = false;
    if (!setjmp(png_jmpbuf(p))) {
        png_set_read_fn(p, &src, png_in);
        png_read_info(p, in);
        if ((size_t)png_get_image_width(p, in) * png_get_image_height(p, in) > 2000000) { g.w = -1; png_error(p, "too large"); }
        int ct = png_get_color_type(p, in);
        if (ct == PNG_COLOR_TYPE_PALETTE) png_set_palette_to_rgb(p);
        if (ct == PNG_COLOR_TYPE_GRAY && png_get_bit_depth(p, in) < 8) png_set_expand_gray_1_2_4_to_8(p);
        if (png_get_bit_depth(p, in) == 16) { if (scale16) png_set_scale_16(p); else png_set_strip_16(p); }
        png_set_interlace_handling(p);
        png_read_update_info(p, in);
        g.w = (int)png_get_image_width(p, in);
        g.h = (int)png_get_image_height(p, in);
        g.c = png_get_channels(p, in);
        size_t rb = png_get_rowbytes(p, in);
        g.px.resize(rb * g.h);
        for (int y = 0; y < g.h; ++y) rp.push_back(g.px.data() + rb * y);
        png_read_image(p, rp.data());
        ok = true;
    }
    png_destroy_read_struct(&p, &in, nullptr);
    g.ok = ok;
    return g;
}
inline bool png_has_trns(const std::string& s) { return s.find("tRNS") != std::string::npos; }

// ---------------------------------------------------------------- JPEG
struct JErr { jpeg_error_mgr m; jmp_buf j; int eof = 0; };
inline void jerr_exit(j_common_ptr c) { longjmp(((JErr*)c->err)->j, 1); }
inline void jerr_msg(j_common_ptr c, int level) { if (level < 0) { c->err->num_warnings++; } }
inline void jerr_out(j_common_ptr) {}
inline void jerr_init(JErr& e) {
    jpeg_std_error(&e.m);
    e.m.error_exit = jerr_exit;
    e.m.emit_message = jerr_msg;
    e.m.output_message = jerr_out;
}
inline std::string jpg_make(const Line& l) {
    int w = (int)l.i("w", 1), h = (int)l.i("h", 1), c = (int)l.i("c", 3);
    sim::Rng r(l.u("px", 1));
    int kind = (int)r.below(3);
    std::vector<uint8_t> px((size_t)w * h * c);
    for (size_t i = 0; i < px.size(); ++i) px[i] = kind == 0 ? r.below(256) : kind == 1 ? (i * 5 + r.below(4)) : 90;
    jpeg_compress_struct ci{};
    JErr e;
    jerr_init(e);
    ci.err = &e.m;
    unsigned char* buf = nullptr;
    unsigned long n = 0;
    if (setjmp(e.j)) sim::violation("harness", "cannot encode the JPEG");
    jpeg_create_compress(&ci);
    jpeg_mem_dest(&ci, &buf, &n);
    ci.image_width = w;
    ci.image_height = h;
    ci.input_components = c;
    ci.in_color_space = c == 1 ? JCS_GRAYSCALE : c == 3 ? JCS_RGB : JCS_CMYK;
    jpeg_set_defaults(&ci);
    jpeg_set_quality(&ci, (int)l.i("q", 75), TRUE);
    if (c == 3 && l.i("sub")) { ci.comp_info[0].h_samp_factor = 1 + l.i("sub") % 2; ci.comp_info[0].v_samp_factor = 1 + l.i("sub") / 2; }
    if (l.i("prog")) jpeg_simple_progression(&ci);
    ci.restart_interval = (int)l.i("rst");
    
    jpeg_start_compress(&ci, TRUE);
    if (l.i("text")) jpeg_write_marker(&ci, JPEG_COM, (const JOCTET*)"a comment marker", 16);
    while (ci.next_scanline < ci.image_height) { JSAMPROW row = px.data() + (size_t)ci.next_scanline * w * c; jpeg_write_scanlines(&ci, &row, 1); }
    jpeg_finish_compress(&ci);
    jpeg_destroy_compress(&ci);
    std::string out((char*)buf, n);
    free(buf);
    return out;
}
inline Img jpg_reference(const std::string& s) {
    Img g;
    jpeg_decompress_struct ci{};
    JErr e;
    jerr_init(e);
    ci.err = &e.m;
    volatile bool ok = false;
    if (!setjmp(e.j)) {
        jpeg_create_decompress(&ci);
        jpeg_mem_src(&ci, (const unsigned char*)s.data(), s.size());
        jpeg_read_header(&ci, TRUE);
        if ((size_t)ci.image_width * ci.image_height > 2000000) { g.w = -1; jerr_exit((j_common_ptr)&ci); }
        jpeg_start_decompress(&ci);
        g.w = ci.output_width;
        g.h = ci.output_height;
        g.c = ci.output_components;
        g.px.resize((size_t)g.w * g.h * g.c);
        while (ci.output_scanline < ci.output_height) { JSAMPROW row = g.px.data() + (size_t)ci.output_scanline * g.w * g.c; jpeg_read_scanlines(&ci, &row, 1); }
        ok = true;
    }
    jpeg_destroy_decompress(&ci);
    g.ok = ok;
    return g;
}

// ---------------------------------------------------------------- plans
inline void img_gen(sim::Rng& r, Line& l, bool damage, bool io) {
    bool png = r.chance(0.55);
    bool tiny = r.chance(0.4);
    l.set("fmt", std::string(png ? "png" : r.chance(0.5) ? "jpg" : "jpeg")).set("w", r.range(1, tiny ? 4 : 40)).set("h", r.range(1, tiny ? 4 : 40)).set("px", r.next() >> 8);
    if (r.chance(0.1)) { bool wide = r.chance(0.5); l.set(wide ? "w" : "h", r.range(41, 700)).set(wide ? "h" : "w", r.range(1, 5)); }
    if (png) {
        static const int t[][2] = {{0, 1}, {0, 2}, {0, 4}, {0, 8}, {0, 16}, {2, 8}, {2, 8}, {2, 16}, {3, 1}, {3, 2}, {3, 4}, {3, 8}, {4, 8}, {4, 16}, {6, 8}, {6, 8}, {6, 16}};
        int k = r.below(sizeof t / sizeof *t);
        l.set("ct", t[k][0]).set("depth", t[k][1]).set("lace", r.chance(0.3) ? 1 : 0).set("level", r.range(0, 9));
        if (r.chance(0.3)) l.set("buf", r.range(32, 300));
    } else {
        l.set("c", r.chance(0.3) ? 1 : r.chance(0.85) ? 3 : 4).set("q", r.range(5, 100)).set("sub", (int)r.below(4)).set("prog", r.chance(0.3) ? 1 : 0).set("rst", r.chance(0.2) ? r.range(1, 4) : 0);
    }
    if (r.chance(0.2)) l.set("text", 1);
    static const char* tg[] = {"empty", "empty", "given", "given", "wrong", "ret"};
    l.set("to", std::string(tg[r.below(6)]));
    if (l.s("to") == "wrong") l.set("by", r.chance(0.5) ? r.range(1, 9) : -r.range(1, 9));
    std::string mut = "none";
    if (damage && r.chance(0.65)) {
        static const char* m[] = {"cut", "cut", "cut", "flip", "flip", "crcflip", "empty", "missing", "garbage", "alien", "drop", "dir"};
        mut = m[r.below(12)];
        l.set("a", r.unit()).set("b", r.next() >> 8);
    }
    if (damage && !png && r.chance(0.02)) {      // a header whose element count does not fit 32 bits
        int w = r.range(22000, 65000);
        mut = "wrap";
        l.set("c", 3).set("sub", 0).set("w", w).set("h", 8).set("prog", 0).set("to", std::string("given")).set("a", 0.0).set("b", (uint64_t)1);
    } else if (r.chance(0.02)) {
        bool wide = r.chance(0.5), both = r.chance(0.3);
        l.set(wide ? "w" : "h", r.range(701, 3000)).set(wide ? "h" : "w", r.range(1, 12));
        if (both) l.set("w", r.range(60, 220)).set("h", r.range(60, 220));
    }
    l.set("mut", mut);
    if (io && r.chance(0.5)) {
        static const int errs[] = {EIO, EIO, EINTR, EACCES, EMFILE, ENOMEM};
        if (r.chance(0.2)) l.set("io", std::string("open")).set("at", 0).set("err", errs[3 + r.below(3)]);
        else l.set("io", std::string("read")).set("at", (int)r.below(r.chance(0.7) ? 2 : 6)).set("err", errs[r.below(3)]).set("sticky", r.chance(0.6) ? 1 : 0);
    }
    if (io && r.chance(0.3)) l.set("short", r.unit()).set("sseed", r.next() >> 8);
    if (r.chance(0.15)) l.set("view", 1);
}
inline uint32_t crc_of(const std::string& s, size_t from, size_t n) {
    uint32_t c = 0xffffffff;
    for (size_t i = 0; i < n; ++i) { c ^= (uint8_t)s[from + i]; for (int k = 0; k < 8; ++k) c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1; }
    return ~c;
}
struct Case {
    std::string bytes;                // what is on the disk
    std::string mut;
    bool file = true, dir = false;
    Img want, alt;                    // of the intact file (cut, faults) or of the damaged one
    size_t wrap = 0;
    bool must_work = false, may_work = false, skip = false;
};
inline Case img_case(const Line& l) {
    Case k;
    k.mut = l.s("mut", "none");
    bool png = l.s("fmt") == "png";
    std::string b = png ? png_make(l, k.want, k.alt) : jpg_make(l);
    if (!png) k.alt = k.want = jpg_reference(b);
    if (!k.want.ok) sim::violation("harness", "the reference cannot decode its own image");
    sim::Rng r(l.u("b"));
    size_t at = (size_t)(l.f("a") * b.size());
    if (at >= b.size()) at = b.size() - 1;
    auto again = [&] {
        if (png) { k.want = png_reference(b, false); k.alt = png_reference(b, true); }
        else k.want = k.alt = jpg_reference(b);
        k.may_work = k.want.ok;
        if (k.want.w < 0 || png_has_trns(b)) k.skip = true;
    };
    if (k.mut == "none") k.must_work = k.may_work = true;
    else if (k.mut == "cut") { b.resize(at); k.may_work = true; }
    else if (k.mut == "drop") { b.erase(at, 1 + r.below(40)); again(); }
    else if (k.mut == "flip") { int n = 1 + r.below(3); for (int i = 0; i < n; ++i) { b[at] ^= 1 << r.below(8); at = r.below(b.size()); } again(); }
    else if (k.mut == "crcflip") {
        if (png) {                    // change bytes inside one chunk and fix its check sum
            std::vector<std::pair<size_t, size_t>> ch;
            for (size_t p = 8; p + 12 <= b.size();) { size_t n = ((uint8_t)b[p] << 24) | ((uint8_t)b[p + 1] << 16) | ((uint8_t)b[p + 2] << 8) | (uint8_t)b[p + 3]; ch.push_back({p, n}); p += 12 + n; }
            auto c = ch[r.below(ch.size())];
            if (c.second) {
                size_t q = c.first + 8 + r.below(c.second);
                if (b.compare(c.first + 4, 4, "IHDR") == 0 && r.chance(0.7)) { static const int off[] = {2, 3, 6, 7, 8, 9, 12}; q = c.first + 8 + off[r.below(7)]; b[q] = (char)(r.chance(0.5) ? r.below(17) : r.below(256)); }
                else b[q] ^= 1 << r.below(8);
                uint32_t v = crc_of(b, c.first + 4, 4 + c.second);
                for (int i = 0; i < 4; ++i) b[c.first + 8 + c.second + i] = (char)(v >> (24 - 8 * i));
            }
        } else b[r.below(std::min<size_t>(b.size(), 200))] = (char)r.below(256);
        again();
    }
    else if (k.mut == "wrap") {
        size_t p = b.find("\xff\xc0");
        if (p == std::string::npos) p = b.find("\xff\xc1");
        uint64_t w = l.i("w"), h = ((1ull << 32) / (3 * w)) + 1;
        b[p + 5] = (char)(h >> 8);
        b[p + 6] = (char)h;
        k.want.h = k.alt.h = (int)h;
        k.wrap = 3 * w * h - (1ull << 32);
    }
    else if (k.mut == "empty") b.clear();
    else if (k.mut == "missing") k.file = false;
    else if (k.mut == "dir") { k.file = false; k.dir = true; }
    else if (k.mut == "garbage") { b.clear(); int n = r.range(1, 200); for (int i = 0; i < n; ++i) b += (char)r.below(256); again(); }
    else if (k.mut == "alien") {      // the other format under this name
        Line o = l;
        o.set("ct", 2).set("depth", 8).set("c", 3);
        Img x, y;
        b = png ? jpg_make(o) : png_make(o, x, y);
        k.may_work = false;
    }
    k.bytes = b;
    return k;
}
struct Outcome { bool threw = false, intact = true; std::string what; sim::IoCounts io{}; };
// Writes the file, arms the faults and reads it through the library; compares when it returns.
inline Outcome img_read(const Line& l, const Case& k, const char* cls) {
    Outcome o;
    std::string path = std::string(scratch_dir()) + "/i." + l.s("fmt");
    if (k.dir) path = std::string(scratch_dir()) + "/nowhere/i." + l.s("fmt");
    unlink(path.c_str());
    if (k.file) spit(path, k.bytes);
    std::string longer = path + "XYZ";
    std::string_view pv = l.i("view") ? std::string_view(longer).substr(0, path.size()) : std::string_view(path);
    std::string to = l.s("to", "empty");
    const Img& g = k.want;
    size_t need = k.may_work ? (size_t)g.w * g.h * g.c : k.wrap ? k.wrap : 12, guard = 64;
    long n = (long)need;
    if (to == "wrong") n = std::max(1L, n + l.i("by", 1));
    if (to == "wrong" && n == (long)need) n++;
    std::vector<float> mem;
    dw::Tensor t;
    if (to == "given" || to == "wrong") {
        mem.assign(n + 2 * guard, -77.f);
        Shp s{(int)n};
        if (to == "given" && k.may_work && l.u("px") % 2) s = {g.h, g.w, g.c};
        t = dw::Tensor(dw::Shape(s), mem.data() + guard);
    }
    std::vector<sim::IoFault> fs;
    if (l.has("io")) { sim::IoFault f; f.op = io_op(l.s("io")); f.index = l.i("at"); f.err = (int)l.i("err", EIO); f.sticky = l.i("sticky") != 0; fs.push_back(f); }
    sim::IoBenign bn;
    bn.seed = l.u("sseed");
    bn.p_short = l.f("short");
    sim::io_arm(fs, bn);
    try {
        if (to == "ret") t = dw::io::ReadImage(pv);
        else dw::io::ReadImage(pv, t);
    } catch (const std::exception& e) {
        o.threw = true;
        o.what = e.what();
    }
    o.io = sim::io_disarm();
    for (size_t i = 0; i < mem.size(); ++i)
        if ((i < guard || i >= guard + (size_t)n) && mem[i] != -77.f) sim::violation("outside-memory", "reading a %dx%dx%d image into a tensor of %ld elements wrote memory %s it", g.w, g.h, g.c, n, i < guard ? "before" : "behind");
    std::string desc = l.s("fmt") + " image" + (l.s("fmt") == "png" ? " of colour type " + l.s("ct") + ", " + l.s("depth") + " bits" + (l.i("lace") ? ", interlaced" : "") : " of " + l.s("c") + " components") + ", " + (k.mut == "none" ? std::string("intact") : "damage: " + k.mut);
    if (o.threw) {
        if (k.must_work && to != "wrong" && !o.io.hard) sim::violation(cls, "reading an intact file failed (%s): %s", desc.c_str(), o.what.c_str());
        return o;
    }
    if (to == "wrong" && (k.may_work || k.mut != "none")) sim::violation(cls, "reading into a tensor of the wrong size returned normally (%s)", desc.c_str());
    if (!k.may_work) sim::violation(cls, "reading returned normally although the file holds no image (%s)", desc.c_str());
    if (to != "given" && Shp(t.shape()) != Shp{g.h, g.w, g.c}) sim::violation(cls, "the tensor has shape %s, the image is %dx%dx%d (%s)", shape_text(t.shape()).c_str(), g.h, g.w, g.c, desc.c_str());
    if (t.total() != need) sim::violation(cls, "the tensor has another number of elements than the image (%s)", desc.c_str());
    bool a = true, b = true;
    size_t bad = 0;
    for (size_t i = 0; i < need; ++i) {
        float v = t.data()[i];
        if (v != k.want.px[i]) { a = false; if (!bad) bad = i + 1; }
        if (k.alt.px.size() != need || v != k.alt.px[i]) b = false;
    }
    if (!a && !b) sim::violation(cls, "%s: returned normally with a wrong pixel: element %zu of %zu is %g, the image has %d; %ld failed reads, file of %zu bytes", desc.c_str(), bad - 1, need, t.data()[bad - 1], k.want.px[bad - 1], o.io.hard, k.bytes.size());
    sim::hash_bytes(t.data(), need * 4);
    return o;
}
