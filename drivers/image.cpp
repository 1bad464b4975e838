#define DRV_MAIN
#include "common.hpp"
#include <deepworks/image_reader.hpp>
#include <png.h>
#include <jpeglib.h>
#include <csetjmp>
#include <fstream>
#include <dirent.h>
static int open_files() { int n = 0; if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); } return n; }

using dw::Shape; using dw::Tensor;
struct Img { int h, w, c; std::vector<unsigned char> px; };
static std::string dir() { const char* d = std::getenv("DRV_TMP"); return d ? d : "."; }
static std::string file(const std::string& n) { return dir() + "/" + n; }
static Img picture(Case& c, int ch) {
    Img m; m.c = ch; m.h = c.pick("H", 1, 12); m.w = c.pick("W", 1, 12);
    if (c.rng() % 8 == 0) m.w = 40 + c.rng() % 40;
    if (c.rng() % 8 == 0) m.h = 20 + c.rng() % 40;
    if ((long)m.h * m.w > 100000) throw Skip{};
    m.px.resize((size_t)m.h * m.w * ch);
    for (auto& p : m.px) p = (unsigned char)c.rng();
    return m;
}
static void save_png(const std::string& path, const Img& m, int color, int depth, bool adam7) {
    FILE* f = std::fopen(path.c_str(), "wb"); if (!f) throw Skip{};
    png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, 0, 0, 0); png_infop i = png_create_info_struct(p);
    png_init_io(p, f);
    png_set_IHDR(p, i, m.w, m.h, depth, color, adam7 ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
    if (color == PNG_COLOR_TYPE_PALETTE) { std::vector<png_color> pal(1 << (depth > 8 ? 8 : depth)); for (size_t k = 0; k < pal.size(); ++k) pal[k] = {(png_byte)k, (png_byte)(k * 3), (png_byte)(k * 7)}; png_set_PLTE(p, i, pal.data(), (int)pal.size()); }
    png_write_info(p, i);
    size_t rb = png_get_rowbytes(p, i);
    std::vector<std::vector<unsigned char>> rows(m.h, std::vector<unsigned char>(rb + 8));
    std::vector<png_bytep> ptr;
    for (int y = 0; y < m.h; ++y) { for (size_t k = 0; k < rb; ++k) rows[y][k] = m.px[((size_t)y * m.w * m.c + k) % m.px.size()]; ptr.push_back(rows[y].data()); }
    png_write_image(p, ptr.data()); png_write_end(p, 0); png_destroy_write_struct(&p, &i); std::fclose(f);
}
static void save_jpeg(const std::string& path, const Img& m, int quality) {
    FILE* f = std::fopen(path.c_str(), "wb"); if (!f) throw Skip{};
    jpeg_compress_struct ci{}; jpeg_error_mgr e{}; ci.err = jpeg_std_error(&e); jpeg_create_compress(&ci); jpeg_stdio_dest(&ci, f);
    ci.image_width = m.w; ci.image_height = m.h; ci.input_components = m.c; ci.in_color_space = m.c == 1 ? JCS_GRAYSCALE : JCS_RGB;
    jpeg_set_defaults(&ci); jpeg_set_quality(&ci, quality, TRUE); jpeg_start_compress(&ci, TRUE);
    while (ci.next_scanline < ci.image_height) { JSAMPROW r = const_cast<unsigned char*>(&m.px[(size_t)ci.next_scanline * m.w * m.c]); jpeg_write_scanlines(&ci, &r, 1); }
    jpeg_finish_compress(&ci); jpeg_destroy_compress(&ci); std::fclose(f);
}
static Img decode_jpeg(const std::string& path) {       // the oracle: the library's own decoding
    FILE* f = std::fopen(path.c_str(), "rb"); if (!f) throw Skip{};
    jpeg_decompress_struct ci{}; jpeg_error_mgr e{}; ci.err = jpeg_std_error(&e); jpeg_create_decompress(&ci); jpeg_stdio_src(&ci, f);
    jpeg_read_header(&ci, TRUE); jpeg_start_decompress(&ci);
    Img m; m.h = ci.output_height; m.w = ci.output_width; m.c = ci.output_components; m.px.resize((size_t)m.h * m.w * m.c);
    while (ci.output_scanline < ci.output_height) { JSAMPROW r = &m.px[(size_t)ci.output_scanline * m.w * m.c]; jpeg_read_scanlines(&ci, &r, 1); }
    jpeg_finish_decompress(&ci); jpeg_destroy_decompress(&ci); std::fclose(f); return m;
}
static void check(Case& c, const std::string& path, const Img& m) {
    std::vector<double> want(m.px.begin(), m.px.end());
    Shape s{m.h, m.w, m.c};
    long how = c.pick("tensor", 0, 4); int fds = open_files();
    struct Closed { int fds; ~Closed() noexcept(false) { if (!std::uncaught_exceptions()) require("the file is closed", open_files() == fds); } } closed{fds};
    if (how == 0) { Tensor t = dw::io::ReadImage(path); require("shape is height x width x channels", t.shape() == s); exact("decoded samples", t, want); }
    else if (how == 1) { Tensor t; dw::io::ReadImage(path, t); require("shape is height x width x channels", t.shape() == s); exact("decoded samples", t, want); }
    else if (how == 2) { Tensor t = c.tensor(s); float* d = t.data(); dw::io::ReadImage(path, t); require("an allocated tensor keeps its memory", t.data() == d); exact("decoded samples", t, want); }
    else if (how == 3) { Tensor t = c.tensor({1, m.h, m.w, m.c}); dw::io::ReadImage(path, t); exact("decoded samples", t, want); }
    else {              // a view of a larger tensor: neighbours stay
        Tensor big = c.tensor({3, m.h, m.w, m.c}); auto before = c.copy(big); size_t n = want.size();
        Tensor t(s, big.data() + n); dw::io::ReadImage(path, t);
        for (size_t i = 0; i < n; ++i) before[n + i] = want[i];
        exact("decoded samples in a view, neighbours unchanged", big, before);
    }
}
static const int COLORS[4] = {PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_GRAY_ALPHA, PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_RGB_ALPHA};
TEST_CASE("C25", "png") {
    int ch = c.pick("channels", 1, 4); Img m = picture(c, ch);
    std::string p = file("a.b.png"); save_png(p, m, COLORS[ch - 1], 8, c.pick("adam7", 0, 3) == 0);
    check(c, p, m);
}
TEST_CASE("C25", "jpeg") {
    int ch = c.choose("channels", {1, 3}); Img m = picture(c, ch);
    std::string p = file(c.pick("ext", 0, 1) ? "x.jpg" : "y.z.jpeg"); save_jpeg(p, m, c.choose("quality", {30, 75, 100}));
    check(c, p, decode_jpeg(p));
}
TEST_CASE("C25", "wrong size refused") {
    int ch = c.choose("channels", {1, 3}); Img m = picture(c, ch);
    bool png = c.pick("png", 0, 1); std::string p = file(png ? "s.png" : "s.jpg");
    if (png) save_png(p, m, COLORS[ch - 1], 8, false); else save_jpeg(p, m, 90);
    int n = m.h * m.w * m.c, d = c.choose("delta", {-1, 1, n, 7});
    if (n + d <= 0) throw Skip{};
    Tensor t = c.tensor({n + d}); auto before = c.copy(t);
    require("a tensor of another size is refused", throws([&] { dw::io::ReadImage(p, t); }));
    exact("a refused read leaves the tensor unchanged", t, before);
    check(c, p, png ? m : decode_jpeg(p));
}
TEST_CASE("C25", "missing or foreign file refused") {
    Img m = picture(c, 3); long k = c.pick("kind", 0, 11); std::string p;
    auto bytes = [&](const std::string& path, const std::string& b) { std::ofstream(path, std::ios::binary) << b; };
    auto load = [&](const std::string& path) { std::ifstream f(path, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); };
    std::string junk; for (int i = 0, n = c.rng() % 64; i < n; ++i) junk += (char)c.rng();
    switch (k) {
    case 0: p = file("none.png"); break;
    case 1: p = file("none.jpg"); break;
    case 2: p = file("none.jpeg"); break;
    case 3: p = file("pic.bmp"); save_png(p, m, PNG_COLOR_TYPE_RGB, 8, false); break;
    case 4: p = file("picture"); save_png(p, m, PNG_COLOR_TYPE_RGB, 8, false); break;
    case 5: p = file("junk.png"); bytes(p, junk); break;
    case 6: p = file("junk.jpg"); bytes(p, junk); break;
    case 7: p = file("is_jpeg.png"); save_jpeg(p, m, 90); break;
    case 8: p = file("is_png.jpg"); save_png(p, m, PNG_COLOR_TYPE_RGB, 8, false); break;
    case 9: { p = file("cut.png"); save_png(p, m, PNG_COLOR_TYPE_RGB, 8, false); auto b = load(p); bytes(p, b.substr(0, 8 + c.rng() % (b.size() - 8 - 14))); break; }
    case 10: { p = file("cut.jpg"); save_jpeg(p, m, 90); auto b = load(p); bytes(p, b.substr(0, c.rng() % 100)); break; }
    case 11: { p = file("flip.png"); save_png(p, m, PNG_COLOR_TYPE_RGB, 8, false); auto b = load(p); b[b.find("IDAT") + 4 + 8 + c.rng() % 4] ^= 0x40; bytes(p, b); break; }
    }
    bool pre = c.pick("pre", 0, 1);
    Tensor t; if (pre) t = c.tensor({m.h, m.w, 3});
    int fds = open_files();
    require("a missing or foreign file is refused with an exception", throws([&] { dw::io::ReadImage(p, t); }));
    require("a refused file is closed", open_files() == fds);
    std::string q = file("good.png"); save_png(q, m, PNG_COLOR_TYPE_RGB, 8, false);
    check(c, q, m);
}
TEST_CASE("C25", "other sample depths refused") {
    Img m = picture(c, 1); std::string p = file("d.png");
    long k = c.pick("kind", 0, 8);
    static const int D[9] = {1, 2, 4, 16, 16, 16, 16, 1, 4}, T[9] = {PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_RGB_ALPHA, PNG_COLOR_TYPE_GRAY_ALPHA, PNG_COLOR_TYPE_PALETTE, PNG_COLOR_TYPE_PALETTE};
    save_png(p, m, T[k], D[k], false);
    Tensor t;
    require("a PNG that is not 8 bits per sample is refused", throws([&] { dw::io::ReadImage(p, t); }));
}
TEST_CASE("C25", "path view") {
    Img m = picture(c, 3); bool png = c.pick("png", 0, 1);
    std::string p = file(png ? "v.png" : "v.jpg"), longer = p + "extra";
    if (png) save_png(p, m, PNG_COLOR_TYPE_RGB, 8, false); else { save_jpeg(p, m, 90); m = decode_jpeg(p); }
    Tensor t; dw::io::ReadImage(std::string_view(longer).substr(0, p.size()), t);
    exact("decoded samples", t, std::vector<double>(m.px.begin(), m.px.end()));
}
