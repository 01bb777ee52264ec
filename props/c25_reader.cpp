// C25: the dataset reader against the bytes of generated files.
#include "common.h"
#include "cnn_from_scratch/MNISTReader.h"
#include <fstream>
#include <memory>
#include <unistd.h>
#include <fcntl.h>
using namespace my_cnn;
struct Data { int n, h, w; std::string img, lab; };
static std::string be(uint32_t v) { return {(char)(v >> 24), (char)(v >> 16), (char)(v >> 8), (char)v}; }
static void spit(const std::string& p, const std::string& t) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(t.data(), (long)t.size()); }
static Data gen(Src& s, bool small) {
    Data d; switch (small ? 0 : s.chance(1, 400) ? 4 : s.weighted({5, 3, 1, 1})) { case 0: d.n = s.range(0, 6); d.h = s.range(1, 5); d.w = s.range(1, 5); break; case 1: d.n = s.range(1, 20); d.h = s.range(1, 30); d.w = s.range(1, 30); break; case 2: d.n = s.range(1, 300); d.h = s.range(20, 30); d.w = s.range(20, 30); break; case 4: d.n = s.range(1, 2); d.h = s.range(1, 2); d.w = s.range(250, 70000); if (s.boolean()) std::swap(d.h, d.w); break; default: d.n = s.range(1, 12); d.h = s.range(1, 4); d.w = s.range(1, 400); if (s.boolean()) std::swap(d.h, d.w); }
    d.img = be(2051) + be((uint32_t)d.n) + be((uint32_t)d.h) + be((uint32_t)d.w); d.lab = be(2049) + be((uint32_t)d.n); Bulk b(s.draw(0xFFFFFF)); int pat = (int)s.weighted({4, 1, 1});
    for (long i = 0; i < (long)d.n * d.h * d.w; i++) d.img += (char)(pat == 0 ? b.below(256) : pat == 1 ? i % 256 : (int)(b.below(2) ? b.below(2) * 255 : 127 + b.below(2))); for (int i = 0; i < d.n; i++) d.lab += (char)(s.chance(4, 5) ? b.below(10) : b.below(256));
    return d;
}
static void expectImage(const Image& im, const Data& d, int i) {
    REQUIRE(fromDim(im.data.dim()) == (D3{d.h, d.w, 1}), "image ", i, " has shape ", fromDim(im.data.dim()), " instead of ", d.h, "x", d.w);
    for (int r = 0; r < d.h; r++) for (int k = 0; k < d.w; k++) { int px = (unsigned char)d.img[16 + ((size_t)i * d.h + r) * d.w + k]; float want = (px - 128) / 255.0f, got = im.data(r, k, 0); REQUIRE(std::fabs(got - want) <= 1e-6f, "image ", i, " of ", d.n, " (", d.h, "x", d.w, ") pixel (", r, ",", k, ") is ", got, " instead of ", want); }
    REQUIRE(im.label == (uint8_t)d.lab[8 + (size_t)i], "image ", i, " has label ", +im.label, " instead of ", +(uint8_t)d.lab[8 + (size_t)i]);
}
template<class F> bool refused(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
PROP(reads, 5) {
    Src& s = c.s; Data d = gen(s, false); std::string a = pbt::scratchDir() + "/i", b = pbt::scratchDir() + "/l"; spit(a, d.img); spit(b, d.lab); MNISTReader rd(a, b); c.log(d.n, " images of ", d.h, "x", d.w); REQUIRE(rd.numImages() == (size_t)d.n, "reports ", rd.numImages(), " images instead of ", d.n); REQUIRE(rd.imageIndex() == 0, "starts at index ", rd.imageIndex());
    long at = 0; int steps = s.range(1, 30), ok = 0;       // at < 0: unknown after a refused random access
    for (int q = 0; q < steps; q++) switch (s.weighted({5, 4, 1, 1})) {
        case 0: if (at < 0) break; if (at >= d.n) { REQUIRE(refused([&] { rd.nextImage(); }), "reading past the last of ", d.n, " images is not refused"); c.log("; next!"); c.label("past the end"); } else { expectImage(rd.nextImage(), d, (int)at); at++; REQUIRE(rd.imageIndex() == (size_t)at, "running index is ", rd.imageIndex(), " instead of ", at); c.log("; next"); ok++; } break;
        case 1: if (d.n == 0) break; { int i = s.range(0, d.n - 1); c.log("; get ", i); expectImage(rd.getImage((size_t)i), d, i); at = i + 1; REQUIRE(rd.imageIndex() == (size_t)at, "running index after reading ", i, " is ", rd.imageIndex()); ok++; break; }
        case 2: { size_t i = (size_t)d.n + (s.boolean() ? 0 : (size_t)s.pick({1ll, 2ll, 1000ll, 1ll << 31, 1ll << 40, (long long)(~0ull >> 1) - d.n, -1ll - d.n})); c.log("; get ", i, "!"); REQUIRE(refused([&] { rd.getImage(i); }), "image ", i, " of ", d.n, " is not refused"); at = -1; c.label("out of range"); break; }
        default: while (at >= 0 && at < d.n) { expectImage(rd.nextImage(), d, (int)at); at++; ok++; } if (at >= 0) { REQUIRE(refused([&] { rd.nextImage(); }), "reading past the last of ", d.n, " images is not refused"); c.label("read to the end"); }
    }
    c.nontrivial = ok > 1 && d.h * d.w > 1;
}
PROP(truncated, 4) {
    Src& s = c.s; Data d = gen(s, true); std::string a = pbt::scratchDir() + "/ti", b = pbt::scratchDir() + "/tl"; auto cut = [&](size_t n, size_t head) { return s.boolean() ? n : s.chance(1, 6) ? s.draw(head) : head + s.draw(n - head); }; size_t ci = cut(d.img.size(), 16), cl = cut(d.lab.size(), 8); spit(a, d.img.substr(0, ci)); spit(b, d.lab.substr(0, cl)); c.log(d.n, " images of ", d.h, "x", d.w, ", image file ", ci, " of ", d.img.size(), ", label file ", cl, " of ", d.lab.size());
    bool header = ci >= 16 && cl >= 8; std::unique_ptr<MNISTReader> rd; bool thrown = refused([&] { rd = std::make_unique<MNISTReader>(a, b); }); c.nontrivial = ci < d.img.size() || cl < d.lab.size();
    if (!header) { REQUIRE(thrown, "files without a complete header are opened"); c.label("header cut"); return; } REQUIRE(!thrown, "files with a complete header are refused");
    auto there = [&](int i) { return ci >= 16 + (size_t)(i + 1) * d.h * d.w && cl >= 8 + (size_t)i + 1; }; bool seq = s.boolean(); int steps = s.range(1, 10);
    if (seq) for (int i = 0; i < d.n; i++) { if (there(i)) expectImage(rd->nextImage(), d, i); else { REQUIRE(refused([&] { rd->nextImage(); }), "missing image ", i, " is invented"); c.label("missing image"); break; } }
    for (int q = 0; q < steps && d.n; q++) { int i = s.range(0, d.n - 1); c.log("; get ", i); if (there(i)) expectImage(rd->getImage((size_t)i), d, i); else { REQUIRE(refused([&] { rd->getImage((size_t)i); }), "missing image ", i, " of ", d.n, " is invented"); c.label("missing image"); } }
}
// sparse files whose offsets do not fit 32 bits
PROP(large, 1) {
    Src& s = c.s; Data d; d.h = s.range(20, 60); d.w = s.range(20, 60); long px = (long)d.h * d.w; long total = s.pick({1l << 31, 1l << 32, 1l << 33, 1l << 27}); d.n = (int)(total / px + s.range(1, 50)); long i = d.n - 1 - s.range(0, 30); std::string a = pbt::scratchDir() + "/bi", b = pbt::scratchDir() + "/bl"; c.log(d.n, " images of ", d.h, "x", d.w, ", image ", i); c.nontrivial = true;
    std::string pix; Bulk bk(s.draw(0xFFFFFF)); for (long k = 0; k < px; k++) pix += (char)bk.below(256); char lab = (char)bk.below(256); bool wrote = true;
    auto sparse = [&](const std::string& p, const std::string& head, long size, long off, const std::string& body) { int fd = ::open(p.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600); wrote &= fd >= 0 && ::pwrite(fd, head.data(), head.size(), 0) == (long)head.size() && ::ftruncate(fd, size) == 0 && ::pwrite(fd, body.data(), body.size(), off) == (long)body.size(); if (fd >= 0) ::close(fd); };
    sparse(a, be(2051) + be((uint32_t)d.n) + be((uint32_t)d.h) + be((uint32_t)d.w), 16 + d.n * px, 16 + i * px, pix); sparse(b, be(2049) + be((uint32_t)d.n), 8 + d.n, 8 + i, std::string(1, lab));
    if (!wrote) { c.label("no space for sparse files, skipped"); ::unlink(a.c_str()); ::unlink(b.c_str()); c.nontrivial = false; return; }
    { MNISTReader rd(a, b); Image im = rd.getImage((size_t)i); for (int r = 0; r < d.h; r++) for (int k = 0; k < d.w; k++) { float want = ((int)(unsigned char)pix[(size_t)r * d.w + k] - 128) / 255.0f; REQUIRE(std::fabs(im.data(r, k, 0) - want) <= 1e-6f, "image ", i, " of a ", d.n * px >> 20, " MB file, pixel (", r, ",", k, ") is ", im.data(r, k, 0), " instead of ", want); } REQUIRE(im.label == (uint8_t)lab, "label ", +im.label); REQUIRE(rd.imageIndex() == (size_t)i + 1, "running index ", rd.imageIndex()); Image z = rd.getImage(0); REQUIRE(z.label == 0, "label of the first image"); c.label(total > 1l << 30 ? "offset beyond 32 bits" : "large offset"); }
    ::unlink(a.c_str()); ::unlink(b.c_str());
}
