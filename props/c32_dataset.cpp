// C32: image and label files that do not belong together, or are no such files, are refused when the reader is opened.
#include "common.h"
#include "cnn_from_scratch/MNISTReader.h"
#include <fstream>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
using namespace my_cnn;
static std::string be(uint32_t v) { return {(char)(v >> 24), (char)(v >> 16), (char)(v >> 8), (char)v}; }
static void spit(const std::string& p, const std::string& t) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(t.data(), (long)t.size()); }
static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
// Opening may be refused by an exception or by an assertion that stops the program, so it happens in a child process.
struct Outcome { int code; std::string text; };         // 0 accepted, 1 refused, 2 read as data that is not there, 3 crashed
static Outcome open(const std::string& a, const std::string& b, int n, int h, int w, const std::string& pixels, const std::string& labels) {
    std::string err = pbt::scratchDir() + "/err"; fflush(nullptr); pid_t pid = fork();
    if (pid == 0) {
        int fd = ::open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 1); dup2(fd, 2); int code = 0;
        try {
            MNISTReader r(a, b); code = r.numImages() == (size_t)n && r.imageIndex() == 0 ? 0 : 20;
            if (code == 0) for (int i = 0; i < n && code == 0; i++) { Image im = r.nextImage(); if (im.data.dim() != dim3(h, w, 1) || im.label != (uint8_t)labels[(size_t)i]) code = 20; else for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) if (std::fabs(im.data(y, x, 0) - ((int)(unsigned char)pixels[((size_t)i * h + y) * w + x] - 128) / 255.0f) > 1e-6f) code = 20; }
        } catch (const std::exception&) { code = 10; } catch (...) { code = 30; }
        fflush(nullptr); _exit(code);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0) {} std::string text = slurp(err);
    if (WIFEXITED(st)) { int k = WEXITSTATUS(st); return {k == 0 ? 0 : k < 20 && text.find("Sanitizer") == std::string::npos ? 1 : k == 20 ? 2 : 3, text}; }
    bool assertion = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && text.find("Assertion '") == std::string::npos && text.find("Sanitizer") == std::string::npos && text.find("runtime error:") == std::string::npos;
    return {assertion ? 1 : 3, text};
}
PROP(opening, 1) {
    Src& s = c.s; int n = s.range(0, 5), h = s.range(1, 4), w = s.range(1, 4); int fault = (int)s.weighted({2, 3, 3, 4, 2, 1, 1, 1}); std::string a = pbt::scratchDir() + "/i", b = pbt::scratchDir() + "/l"; uint32_t ma = 2051, mb = 2049; int na = n, nb = n; Bulk k(s.draw(0xFFFFFF)); std::string px, lb;
    auto magic = [&](uint32_t right) { uint32_t m = right; switch (s.range(0, 4)) { case 0: m = right == 2051 ? 2049 : 2051; break; case 1: m = right ^ (1u << s.draw(31)); break; case 2: m = (uint32_t)s.draw(0xFFFFFFFF); break; case 3: m = __builtin_bswap32(right); break; default: m = right + (uint32_t)s.range(-2, 2); } return m == right ? right + 1 : m; };
    switch (fault) { case 1: ma = magic(2051); c.label("image magic"); break; case 2: mb = magic(2049); c.label("label magic"); break; case 3: { long d = s.boolean() ? s.range(1, 3) : 256l * s.range(1, 200); if (s.boolean()) na = n + (int)d; else nb = n + (int)d; c.label("counts differ"); break; } default: break; }
    for (long i = 0; i < (long)std::min(std::max(na, nb), 60000) * h * w; i++) px += (char)k.below(256); for (int i = 0; i < std::max(na, nb); i++) lb += (char)k.below(10);
    std::string ti = be(ma) + be((uint32_t)na) + be((uint32_t)h) + be((uint32_t)w) + px.substr(0, (size_t)na * h * w), tl = be(mb) + be((uint32_t)nb) + lb.substr(0, (size_t)nb); bool da = false, db = false;
    switch (fault) { case 4: if (s.boolean()) { ti.resize(s.draw(15)); } else { tl.resize(s.draw(7)); } c.label("header cut"); break; case 5: (s.boolean() ? da : db) = true; c.label("missing"); break; case 6: std::swap(ti, tl); c.label("exchanged"); break; case 7: (s.boolean() ? da : db) = true; c.label("directory"); break; default: break; }
    auto put = [&](const std::string& p, const std::string& t, bool gone) { ::unlink(p.c_str()); ::rmdir(p.c_str()); if (!gone) spit(p, t); else if (fault == 7) ::mkdir(p.c_str(), 0700); }; put(a, ti, da); put(b, tl, db);
    c.log("fault ", fault, ": magic ", ma, "/", mb, ", ", na, "/", nb, " images of ", h, "x", w, ", ", ti.size(), "/", tl.size(), " bytes"); Outcome o = open(a, b, n, h, w, px, lb); std::string tail = o.text.size() > 600 ? o.text.substr(o.text.size() - 600) : o.text; c.nontrivial = fault != 0;
    REQUIRE(o.code != 3, "the reader crashes: ", tail); if (fault == 0) { REQUIRE(o.code == 0, "well-formed files are ", o.code == 1 ? "refused: " : "misread: ", tail); c.label("well-formed"); } else REQUIRE(o.code == 1, "files which are no matching pair are accepted");
    if (!da) REQUIRE(slurp(a) == ti, "the image file was changed"); if (!db) REQUIRE(slurp(b) == tl, "the label file was changed"); ::unlink(a.c_str()); ::unlink(b.c_str()); ::rmdir(a.c_str()); ::rmdir(b.c_str());
}
