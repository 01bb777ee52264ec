// C26: printing matrices to streams and rendering images to the terminal.
#include "common.h"
#include "cnn_from_scratch/imageUtil.h"
#include "cnn_from_scratch/LoadingBar.h"
#include <iostream>
#include <sys/mman.h>
#include <unistd.h>
using namespace my_cnn;
struct Capture {       // everything written to standard output, by any means
    int fd, old; Capture() { std::cout.flush(); fflush(stdout); old = dup(1); fd = memfd_create("out", 0); dup2(fd, 1); }
    std::string stop() { if (fd < 0) return ""; std::cout.flush(); fflush(stdout); std::string t; char buf[65536]; lseek(fd, 0, SEEK_SET); ssize_t n; while ((n = read(fd, buf, sizeof buf)) > 0) t.append(buf, (size_t)n); dup2(old, 1); close(old); close(fd); fd = -1; return t; }
    ~Capture() { stop(); }
};
template<class T> struct Tok { bool neg; std::string mag; };
template<class T> std::string magText(T v) { std::ostringstream o; if constexpr (std::is_floating_point_v<T>) { o.precision(2); o << std::fixed << std::fabs(v); } else { unsigned long long m = (unsigned long long)(long long)v; if (v < 0) m = 0ull - m; else m = (unsigned long long)v; o << m; } return o.str(); }
template<class M, class T> void checkText(const std::string& t, const Ref<T>& r, const char* what, char fill) {
    if (r.d.size() == 0) return;
    size_t p = 0; std::vector<std::string> lines; std::string cur; for (char ch : t) if (ch == '\n') { if (cur.find_first_not_of(' ') != std::string::npos) lines.push_back(cur); cur.clear(); } else cur += ch; if (cur.find_first_not_of(' ') != std::string::npos) lines.push_back(cur); (void)p;
    REQUIRE((int)lines.size() == r.d.x, what, ": ", lines.size(), " lines for ", r.d.x, " rows:\n", t.substr(0, 500));
    for (int x = 0; x < r.d.x; x++) {
        const std::string& l = lines[(size_t)x]; size_t q = 0;
        for (int z = 0; z < r.d.z; z++) {
            size_t b = l.find('[', q), e = l.find(']', q); REQUIRE(b != std::string::npos && e != std::string::npos && l.find_first_not_of(' ', q) == b, what, ": row ", x, " channel ", z, " not bracketed: ", l.substr(0, 300)); std::string body = l.substr(b + 1, e - b - 1); q = e + 1; size_t s0 = 0;
            for (int y = 0; y < r.d.y; y++) {
                size_t cm = body.find(',', s0); REQUIRE((cm == std::string::npos) == (y == r.d.y - 1), what, ": row ", x, " channel ", z, " does not have ", r.d.y, " values: ", body.substr(0, 300)); std::string cell = body.substr(s0, cm == std::string::npos ? std::string::npos : cm - s0); s0 = cm + 1;
                T v = r.at(x, y, z); std::string g; for (char ch : cell) if (ch != ' ' && ch != fill) g += ch; std::string w = (v < 0 ? "-" : "") + magText(v); REQUIRE(g == w, what, ": element (", x, ",", y, ",", z, ") = ", +v, " printed as '", cell, "'");
            }
        }
        REQUIRE(l.find_first_not_of(' ', q) == std::string::npos, what, ": row ", x, " is followed by '", l.substr(q), "'");
    }
}
template<class T> T printVal(Src& s, uint64_t r, Vc vc) { T v = valueFrom<T>(r, vc); if constexpr (std::is_integral_v<T>) { if (r % 23 == 0) return r % 2 ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min(); } else { if (r % 17 == 0) return (T)((double)(r / 17 % 2001) / 1000.0 - 1); if (std::fabs(v) > 1e100) v = (T)(v > 0 ? 1e20 : -1e20); } return v; }
template<class T> Ref<T> printRef(Src& s, D3 d) { Ref<T> r(d); Vc vc = genVc(s); if (d.size() <= 16) for (auto& v : r.v) v = printVal<T>(s, s.draw(0xFFFFFFFF), vc); else { Bulk b(s.draw(0xFFFFFF)); for (auto& v : r.v) v = printVal<T>(s, b.next(), vc); } return r; }
template<class T> void printing(Ctx& c) {
    Src& s = c.s; D3 d = s.chance(1, 3) ? D3{s.range(1, 12), s.range(1, 12), s.range(1, 4)} : D3{s.range(1, 4), s.range(1, 4), s.range(1, 3)}; if (s.chance(1, 25)) (s.boolean() ? d.x : d.y) = 0; Ref<T> r = printRef<T>(s, d); auto m = build(r, 0); const auto& cm = m; c.log(r); c.nontrivial = d.size() > 1; c.label(szLabel(d));
    std::ostringstream os; int prec = s.range(0, 12); os.precision(prec); switch (s.range(0, 3)) { case 1: os << std::fixed; break; case 2: os << std::scientific; break; default: break; } if (s.chance(1, 4)) os << std::showpoint << std::left; char fill = s.chance(1, 3) ? s.pick({'*', '_', '#'}) : ' '; os.fill(fill); auto fl = os.flags(); auto coutp = std::cout.precision(); auto coutf = std::cout.flags(); std::string w; D3 ld = d; int lx = 0, ly = 0, lz = 0; Ref<T> want = r; std::string outside; const char* kind = "matrix";
    std::cout.precision(7); std::cout << std::scientific; auto pf = std::cout.flags();
    { Capture cap; switch (d.size() ? s.range(0, 3) : 0) {
        case 0: os << cm; break;
        case 1: case 2: { lx = s.range(0, d.x - 1); ly = s.range(0, d.y - 1); lz = s.range(0, d.z - 1); ld = D3{s.range(1, d.x - lx), s.range(1, d.y - ly), s.range(1, d.z - lz)}; want = Ref<T>(ld); want.each([&](int x, int y, int z) { want.at(x, y, z) = r.at(lx + x, ly + y, lz + z); }); kind = "view"; if (s.boolean()) os << m.subMatView(dim3(lx, ly, lz), ld.d()); else os << cm.subMatView(dim3(lx, ly, lz), ld.d()); break; }
        default: if constexpr (std::is_same_v<T, double> || std::is_same_v<T, int>) { Ref<T> h = r; for (auto& v : h.v) v = (T)(v / 4); auto hm = build(h, 0); for (size_t i = 0; i < want.v.size(); i++) want.v[i] = h.v[i] + h.v[i]; os << (hm + hm); kind = "expression"; } else os << m;
    } outside = cap.stop(); }
    bool coutok = std::cout.precision() == 7 && std::cout.flags() == pf; std::cout.precision(coutp); std::cout.flags(coutf); c.label(kind);
    REQUIRE(os.good(), "stream bad after printing"); REQUIRE(outside.empty(), "printing to a stream wrote to standard output: ", outside.substr(0, 100)); REQUIRE(coutok, "printing to a stream changed the format of std::cout"); checkText<SimpleMatrix<T>>(os.str(), want, kind, fill);
    REQUIRE(os.precision() == prec, "stream precision ", prec, " became ", os.precision()); REQUIRE(os.flags() == fl, "stream format flags changed"); REQUIRE(os.fill() == fill && os.width() == 0, "stream fill character or width changed"); expectEq(m, r, "matrix after printing");
    std::string before = os.str(); std::ostringstream n1, n2; n1.precision(prec); n1.flags(fl); n1 << 1234.5678 << " " << 42; os.str(""); os << 1234.5678 << " " << 42; REQUIRE(os.str() == n1.str(), "numbers print differently after printing a matrix: ", os.str(), " instead of ", n1.str());
}
PROP(stream, 4) { switch (c.s.weighted({3, 2, 3, 1, 1, 1, 1})) { case 0: printing<double>(c); break; case 1: printing<float>(c); break; case 2: printing<int>(c); break; case 3: printing<unsigned char>(c); break; case 4: printing<short>(c); break; case 5: printing<long>(c); break; default: printing<unsigned>(c); } }
template<class T> void rendering(Ctx& c) {
    Src& s = c.s; D3 d = D3{s.range(1, 9), s.range(1, 9), s.pick({1, 1, 3, 3, 2})}; Ref<T> r(d); int pat = (int)s.weighted({3, 2, 2, 1}); Bulk b(s.draw(0xFFFFFF)); double lo = 0, hi = 1;
    if constexpr (std::is_same_v<T, unsigned char>) { hi = 255; } else if constexpr (std::is_integral_v<T>) { lo = s.pick({0, 0, -40, -300}); hi = s.pick({255, 255, 10, 400}); } else { lo = s.pick({0.0, -0.5, -10.0, 0.2, -1e6}); hi = s.pick({1.0, 0.5, 30.0, 1e6, 0.3}); if (hi < lo) std::swap(lo, hi); }
    for (auto& v : r.v) { double u = (double)b.below(10001) / 10000; v = (T)(pat == 0 ? lo + u * (hi - lo) : pat == 1 ? (u < .5 ? lo : hi) : pat == 2 ? lo + (hi - lo) * (double)b.below(4) / 3 : lo + 0 * u); } if (pat == 3) { T k = (T)(lo + (hi - lo) * (double)b.below(5) / 4); for (auto& v : r.v) v = k; c.label("constant image"); }
    c.log(r); c.label(d.z == 3 ? "colour" : "grey"); c.nontrivial = d.size() > 1; auto m = build(r, 0); std::string t; { Capture cap; if (s.boolean()) printImage(m); else printImage(m.subMatView(dim3(0, 0, 0), d.d())); t = cap.stop(); }
    double mx = *std::max_element(r.v.begin(), r.v.end()), mn = *std::min_element(r.v.begin(), r.v.end()); double top = std::is_integral_v<T> ? 255 : std::max(mx, 1.0); double range = d.z == 3 ? top : top - mn; struct P { double v; int code; }; std::vector<P> ps; size_t p = 0;
    for (int x = 0; x < d.x; x++) {
        size_t nl = t.find('\n', p); REQUIRE(nl != std::string::npos, "image of ", d, " has only ", x, " lines"); std::string l = t.substr(p, nl - p); p = nl + 1; size_t q = 0; int y = 0;
        while ((q = l.find("\033[48;2", q)) != std::string::npos) { int rgb[3], used = 0; REQUIRE(sscanf(l.c_str() + q, "\033[48;2;%d;%d;%dm%n", rgb, rgb + 1, rgb + 2, &used) == 3 && used > 0, "cell ", y, " of row ", x, " is malformed: ", l.substr(q + 1, 30)); REQUIRE(y < d.y, "row ", x, " has more than ", d.y, " cells"); REQUIRE(l[q + (size_t)used] == ' ', "cell (", x, ",", y, ") paints nothing"); q += (size_t)used;
            for (int k = 0; k < 3; k++) { REQUIRE(rgb[k] >= 0 && rgb[k] <= 255, "pixel (", x, ",", y, ") = ", +r.at(x, y, 0), " has level ", rgb[k]); if (d.z == 3) ps.push_back({(double)r.at(x, y, k), rgb[k]}); else REQUIRE(rgb[k] == rgb[0], "grey pixel (", x, ",", y, ") is coloured"); } if (d.z != 3) ps.push_back({(double)r.at(x, y, 0), rgb[0]}); y++; }
        REQUIRE(y == d.y, "row ", x, " has ", y, " cells instead of ", d.y); REQUIRE(l.rfind("\033[0m") != std::string::npos && l.rfind("\033[0m") > l.rfind("\033[48"), "colour not reset at the end of row ", x);
    }
    REQUIRE(t.substr(p).find("\033[48") == std::string::npos, "cells after the last row");
    std::sort(ps.begin(), ps.end(), [](const P& a, const P& e) { return a.v < e.v || (a.v == e.v && a.code < e.code); });
    for (size_t i = 1; i < ps.size(); i++) { REQUIRE(ps[i].v != ps[i - 1].v || ps[i].code == ps[i - 1].code, "equal pixels ", ps[i].v, " have levels ", ps[i - 1].code, " and ", ps[i].code); REQUIRE(ps[i].code >= ps[i - 1].code, "pixel ", ps[i].v, " has level ", ps[i].code, " but ", ps[i - 1].v, " has ", ps[i - 1].code); }
    auto clampv = [&](double v) { return std::min(top, d.z == 3 ? std::max(v, 0.0) : v); };
    for (size_t i = 1; i < ps.size(); i++) if (range > 0 && clampv(ps[i].v) - clampv(ps[i - 1].v) > 0.02 * range) REQUIRE(ps[i].code > ps[i - 1].code, "pixels ", ps[i - 1].v, " and ", ps[i].v, " (full range ", range, ") both have level ", ps[i].code);
    if (d.z != 3 && range > 0 && clampv(ps.back().v) - clampv(ps[0].v) > 0.5 * range) REQUIRE(ps.back().code - ps[0].code > 100, "pixels ", ps[0].v, " and ", ps.back().v, " (full range ", range, ") have levels ", ps[0].code, " and ", ps.back().code);
    expectEq(m, r, "image after rendering");
}
PROP(render, 2) { switch (c.s.range(0, 3)) { case 0: rendering<float>(c); break; case 1: rendering<unsigned char>(c); break; case 2: rendering<double>(c); break; default: rendering<int>(c); } }

// the progress bar of a training run: in proportion to the work done, and std::cout left as found
PROP(progress, 1) {
    Src& s = c.s; int total = s.pick({1, 2, 3, 7, 10, 50, 100, 1000, 1875, 100000}); total = s.boolean() ? total : s.range(1, 5000); int width = s.chance(1, 2) ? 50 : s.range(1, 120), val = s.chance(1, 5) ? total - 1 : s.range(0, total - 1); c.log(val, " of ", total, ", width ", width); c.nontrivial = val > 0; c.label(width == 50 ? "default width" : "other width");
    auto pf = std::cout.flags(); auto pp = std::cout.precision(); auto pc = std::cout.fill(); if (s.boolean()) std::cout << std::left << std::scientific; if (s.boolean()) std::cout.fill('*'); std::cout.precision(s.range(0, 12)); auto f0 = std::cout.flags(); auto p0 = std::cout.precision(); auto c0 = std::cout.fill(); std::string t;
    { Capture cap; if (width == 50) loadingBar((float)val, (float)total); else loadingBar((float)val, (float)total, (size_t)width); t = cap.stop(); }
    bool fok = std::cout.flags() == f0, pok = std::cout.precision() == p0, cok = std::cout.fill() == c0; std::cout.flags(pf); std::cout.precision(pp); std::cout.fill(pc);
    REQUIRE(fok, "the progress bar changed the format flags of std::cout"); REQUIRE(pok, "the progress bar changed the precision of std::cout"); REQUIRE(cok, "the progress bar changed the fill character of std::cout");
    size_t b = t.find('[', t.find('\r') == std::string::npos ? 0 : t.find('\r')), e = t.find(']'); REQUIRE(b != std::string::npos && e != std::string::npos && b < e, "no bar in '", t, "'"); int eq = (int)std::count(t.begin() + (long)b, t.begin() + (long)e, '='); double done = (double)val / total; REQUIRE(std::fabs(eq - done * width) <= 1.01, "the bar has ", eq, " of ", width, " cells filled after ", val, " of ", total); REQUIRE(std::abs((int)(e - b) - width) <= 1, "the bar is ", e - b, " wide instead of ", width); REQUIRE(t.find('=', e) == std::string::npos, "bar after its end: ", t);
    double pct = atof(t.c_str() + e + 1); REQUIRE(t.find('%', e) != std::string::npos && pct >= 100 * done - 0.01 && pct <= 100 * done + 1.01, "the bar shows ", pct, "% after ", val, " of ", total);
}
