#include "operands.h"
using namespace my_cnn;
template<class A, class B> static void conv(Ctx& c) {
    Src& s = c.s; using T = std::common_type_t<A, B>; Vc vc = (Vc)s.weighted({3, 1});
    bool big = s.chance(1, 25);
    D3 di{s.range(1, big ? 40 : 9), s.range(1, big ? 40 : 9), 1};
    if (s.chance(1, 10)) { if (s.boolean()) di.x = s.range(1, 120); else di.y = s.range(1, 120); }
    if (s.chance(1, 80)) { di = D3{s.range(1, 3), s.range(1, 3), 1}; (s.boolean() ? di.x : di.y) = s.range(1, 1500); c.label("long"); }
    D3 df{s.range(1, s.chance(1, 2) ? std::min(3, di.x) : di.x), s.range(1, s.chance(1, 2) ? std::min(3, di.y) : di.y), 1};
    if (s.chance(1, 8)) { if (s.boolean()) df.x = di.x + s.range(1, 3); else df.y = di.y + s.range(1, 3); }
    int sx = s.chance(1, 2) ? 1 : s.range(1, 6), sy = s.chance(1, 2) ? sx : s.range(1, 6); if (s.chance(1, 20)) sx = di.x + s.range(0, 3);
    bool ok = df.x <= di.x && df.y <= di.y;
    Ref<A> a = genRef<A>(s, di, vc); Ref<B> f = genRef<B>(s, df, vc); int ka = genKind4(s), kf = genKind4(s);
    c.log("image ", kindName(ka), " ", a, " filter ", kindName(kf), " ", f, " stride ", sx, ",", sy);
    c.label(ok ? (sx == 1 && sy == 1 ? "unit stride" : "strided") : "refused"); c.nontrivial = !ok || (df.x * df.y > 1 && di.x * di.y > df.x * df.y);
    D3 dr; Ref<T> want; Ref<double> mag;
    if (ok) {
        while (dr.x * sx + df.x <= di.x) dr.x++; while (dr.y * sy + df.y <= di.y) dr.y++; dr.z = 1;     // count the positions that fit
        want = Ref<T>(dr); mag = Ref<double>(dr);
        for (int x = 0; x < dr.x; x++) for (int y = 0; y < dr.y; y++) { double acc = 0, m = 0; for (int i = 0; i < df.x; i++) for (int j = 0; j < df.y; j++) { double p = (double)a.at(x * sx + i, y * sy + j, 0) * (double)f.at(i, j, 0); acc += p; m += std::fabs(p); } want.at(x, y, 0) = (T)acc; mag.at(x, y, 0) = m; }
    }
    bool exact = vc == Vc::Ints || std::is_integral_v<T>; double eps = exact ? 0 : (std::is_same_v<T, float> ? 1e-4 : 1e-12);
    withKind4(ka, s, a, [&](auto&& I) { withKind4(kf, s, f, [&](auto&& F) {
        if (!ok) { REQUIRE(pbt::throws<MatrixSizeException>([&] { (void)convolve(std::forward<decltype(I)>(I), std::forward<decltype(F)>(F), dim2(sx, sy)); }), "image ", di, " filter ", df, " accepted"); return; }
        auto e = convolve(std::forward<decltype(I)>(I), std::forward<decltype(F)>(F), dim2(sx, sy));
        auto tol = [&](int x, int y, int z) { return eps * mag.at(x, y, z) * 4; };
        expectNear(e, want, tol, "convolution");
        SimpleMatrix<T> ev(e); expectNear(ev, want, tol, "evaluated convolution");
        size_t k = 0; for (auto it = e.begin(); it != e.end(); ++it) { if (k++ >= want.v.size()) pbt::fail("iterates too far"); if (!same(*it, ev(it.idx()))) pbt::fail("iteration differs"); } REQUIRE(k == want.v.size(), "iterates ", k);
    }); });
}
#if IN_PART(0)
// linearity and shift: metamorphic relations through the library only
PROP(linear, 1) {
    Src& s = c.s; D3 di{s.range(2, 8), s.range(2, 8), 1}, df{s.range(1, di.x), s.range(1, di.y), 1}; int sx = s.range(1, 3), sy = s.range(1, 3);
    auto A = build(genRef<double>(s, di, Vc::Ints), 0), B = build(genRef<double>(s, di, Vc::Ints), 0), F = build(genRef<double>(s, df, Vc::Ints), 0); int k = s.range(-3, 3);
    c.nontrivial = df.size() > 1 && df != di; c.log(di, df, sx, sy);
    SimpleMatrix<double> L = convolve(A + B * k, F, dim2(sx, sy)), R = convolve(A, F, dim2(sx, sy)) + convolve(B, F, dim2(sx, sy)) * k;
    expectEq(L, toRef(R), "linearity");
    SimpleMatrix<double> full = convolve(A, F, dim2(1, 1)), st = convolve(A, F, dim2(sx, sy));
    toRef(st).each([&](int x, int y, int) { REQUIRE(st(x, y, 0) == full(x * sx, y * sy, 0), "strided result is not the subsampled full result at ", x, ",", y); });
}
#endif
#if IN_PART(0)
PROP(conv_dd, 3) { conv<double, double>(c); }
#endif
#if IN_PART(1)
PROP(conv_ii, 2) { conv<int, int>(c); }
#endif
#if IN_PART(2)
PROP(conv_ff, 2) { conv<float, float>(c); }
#endif
#if IN_PART(3)
PROP(conv_fd, 1) { conv<float, double>(c); }
#endif
