#include "operands.h"
using namespace my_cnn;
template<class T> static void reduce(Ctx& c) {
    Src& s = c.s; D3 d = genDim(s, Sz::Big); Vc vc = (Vc)s.weighted({4, 3}); Ref<T> r = genRef<T>(s, d, vc);
    if constexpr (sizeof(T) == 1) for (auto& v : r.v) v = (T)(v % std::max<long>(1, std::min<long>(16, 255 / d.size() + 1)));   // keep sums representable
    if (s.chance(1, 4)) for (auto& v : r.v) v = (T)(long)((long)v % 3);        // many ties
    if (std::is_signed_v<T> && s.chance(1, 5)) for (auto& v : r.v) if (v > 0) v = (T)-v;  // all negative
    if (d.size() > 1 && s.chance(1, 6)) {     // an extreme value that beats another one by as little as possible
        size_t i = s.draw(r.v.size() - 1), j = s.draw(r.v.size() - 1); const bool low = s.boolean(); const size_t e = (size_t)((low ? std::min_element(r.v.begin(), r.v.end()) : std::max_element(r.v.begin(), r.v.end())) - r.v.begin());
        if constexpr (std::is_floating_point_v<T>) { T x = r.v[e]; r.v[i] = x; if (j != i) r.v[j] = std::fabs(x) < T(1e-3) ? x + T(low ? -1e-6 : 1e-6) : std::nextafter(x, low ? -std::numeric_limits<T>::max() : std::numeric_limits<T>::max()); }
        else if constexpr (sizeof(T) >= 4) for (auto& v : r.v) v = (T)(v + (T)(1 << 30));
        c.label("near ties");
    }
    int k = s.range(0, N_KINDS - 1); c.log(kindName(k), " ", r); c.label(kindName(k)); c.label(szLabel(d)); c.nontrivial = d.size() > 1;
    long double sum = 0, abssum = 0, sq = 0; size_t imin = 0, imax = 0; bool rep = true;
    for (size_t i = 0; i < r.v.size(); i++) { T v = r.flat(i); sum += v; abssum += std::fabs((long double)v); sq += (long double)v * v; if (v < r.flat(imin)) imin = i; if (v > r.flat(imax)) imax = i; }
    const bool fp = std::is_floating_point_v<T>; double eps = !fp ? 0 : std::is_same_v<T, float> ? 1.2e-7 : 2.3e-16; double n = (double)d.size();
    if (!fp) { long double lim = std::numeric_limits<T>::max(); rep = sum <= lim && abssum <= lim; }
    bool sqrep = fp || sq <= (long double)std::numeric_limits<T>::max();
    int xi, yi, zi, xa, ya, za; r.flatPos(imin, xi, yi, zi); r.flatPos(imax, xa, ya, za);
    withKind(k, s, r, [&](auto&& M) {
        REQUIRE(same(min(M), r.flat(imin)) && same(max(M), r.flat(imax)), "min/max are ", +min(M), "/", +max(M), " expected ", +r.flat(imin), "/", +r.flat(imax));
        dim3 pi = minIndex(M), pa = maxIndex(M);
        REQUIRE(fromDim(pi) == (D3{xi, yi, zi}), "minIndex is ", fromDim(pi), " expected ", D3{xi, yi, zi}); REQUIRE(fromDim(pa) == (D3{xa, ya, za}), "maxIndex is ", fromDim(pa), " expected ", D3{xa, ya, za});
        if (rep) { auto sm = my_cnn::sum(M); REQUIRE(std::fabs((double)((long double)sm - sum)) <= eps * n * (double)abssum, "sum is ", +sm, " expected ", (double)sum);
            auto mn = mean(M); long double want = fp ? sum / d.size() : (long double)((long)sum / (long)d.size()); REQUIRE(std::fabs((double)((long double)mn - want)) <= eps * (double)abssum * 2, "mean is ", +mn, " expected ", (double)want); }
        if (sqrep) { auto l2 = l2Norm(M); double want = std::sqrt((double)sq); REQUIRE(std::fabs((double)l2 - want) <= (fp ? eps * n + 1e-15 : 1e-12) * want * 4, "l2Norm is ", (double)l2, " expected ", want); }
    });
    SimpleMatrix<T> m = build(r, 0); const auto& cm = m; REQUIRE(m.minIndex() == imin && cm.maxIndex() == imax, "flat min/max index ", m.minIndex(), "/", m.maxIndex(), " expected ", imin, "/", imax);
}
template<class A, class B> static void equality(Ctx& c) {
    Src& s = c.s; D3 d = genDimOrEmpty(s); Vc vc = (Vc)s.weighted({4, 3}); Ref<A> a = genRef<A>(s, d, vc);
    Ref<B> b(d); for (size_t i = 0; i < b.v.size(); i++) { if constexpr (std::is_integral_v<B> && !std::is_integral_v<A>) a.v[i] = (A)(B)a.v[i]; b.v[i] = (B)a.v[i]; if constexpr (!std::is_integral_v<A>) a.v[i] = (A)b.v[i]; }
    int mode = s.range(0, 5); bool eq = true; double off = 0; size_t where = 0;
    if (mode >= 2 && !b.v.empty()) { where = mode == 2 ? b.v.size() - 1 : mode == 3 ? 0 : s.draw(b.v.size() - 1); double st = std::is_integral_v<B> ? 1 : 0.125; B nb = (B)(b.v[where] + (B)(st * s.range(1, 16)) * (std::is_signed_v<B> && s.boolean() ? -1 : 1)); if constexpr (std::is_floating_point_v<B>) if (mode == 5) nb = std::nextafter(b.v[where], s.boolean() ? B(1e9) : B(-1e9)); eq = same((double)nb, (double)a.v[where]); off = std::fabs((double)nb - (double)a.v[where]); b.v[where] = nb; }
    bool shape = mode == 1; D3 d2 = d;
    if (shape) { int p = s.range(0, 2); if (p == 0) d2 = D3{d.y, d.x, d.z}; else if (p == 1) d2 = D3{(int)d.size(), 1, 1}; else d2.z++; if (d2 != d) eq = false; Ref<B> nb(d2); for (size_t i = 0; i < nb.v.size(); i++) nb.v[i] = i < b.v.size() ? b.v[i] : B{}; b = nb; }
    int ka = genKind4(s), kb = genKind4(s); c.log(kindName(ka), " ", a, " vs ", kindName(kb), " ", b); c.label(eq ? "equal" : shape ? "other shape" : "other element"); c.nontrivial = !eq || d.size() > 1;
    double tol = s.range(0, 20) * 0.125; if (s.chance(1, 3)) tol = off; // exactly at the boundary
    bool near = d2 == d; if (near) for (size_t i = 0; i < a.v.size(); i++) near = near && std::fabs((double)a.v[i] - (double)b.v[i]) <= tol;
    withKind4(ka, s, a, [&](auto&& X) { withKind4(kb, s, b, [&](auto&& Y) {
        REQUIRE(matrixEqual(X, Y) == eq && matrixEqual(Y, X) == eq, "matrixEqual of ", d, " and ", b.d, " is not ", eq);
        if constexpr (!(std::is_unsigned_v<A> && std::is_unsigned_v<B> && sizeof(A) > 1)) REQUIRE(matrixEqual(X, Y, tol) == near && matrixEqual(Y, X, tol) == near, "matrixEqual with tolerance ", tol, " is not ", near, " (difference ", off, ")");
        REQUIRE(matrixEqual(X, X), "matrix not equal to itself");
    }); });
}
// a NaN element equals nothing, with or without a tolerance
template<class T> static void nans(Ctx& c) {
    Src& s = c.s; D3 d = genDim(s, s.boolean() ? Sz::Tiny : Sz::Normal); Ref<T> a = genRef<T>(s, d, Vc::Ints), b = a; const T nan = std::numeric_limits<T>::quiet_NaN(); size_t i = s.draw(a.v.size() - 1); int who = s.range(0, 2); if (who != 1) a.v[i] = nan; if (who != 0) b.v[i] = nan;
    double tol = s.pick({0.0, 0.5, 10.0, 1e300}); int ka = s.range(0, 2), kb = s.range(0, 2); c.log(kindName(ka), " ", a, " vs ", kindName(kb), " ", b); c.label("NaN"); c.nontrivial = d.size() > 1;
    auto go = [&](auto&& X, auto&& Y) { REQUIRE(!matrixEqual(X, Y) && !matrixEqual(Y, X), "matrices with a NaN are equal"); REQUIRE(!matrixEqual(X, Y, tol) && !matrixEqual(Y, X, tol), "matrices with a NaN are equal within ", tol); };
    SimpleMatrix<T> A = build(a, 0), B = build(b, 0); Embedded<T> ea(s, a), eb(s, b); auto right = [&](auto&& X) { if (kb == 0) go(X, B); else if (kb == 1) go(X, eb.view()); else go(X, B * T(1)); };
    if (ka == 0) right(A); else if (ka == 1) right(ea.view()); else right(A * T(1));
}
#if IN_PART(2)
PROP(nan_d, 1) { nans<double>(c); }
PROP(nan_f, 1) { nans<float>(c); }
#endif
#if IN_PART(0)
PROP(reduce_d, 2) { reduce<double>(c); }
PROP(reduce_i, 2) { reduce<int>(c); }
#endif
#if IN_PART(1)
PROP(reduce_f, 1) { reduce<float>(c); }
PROP(reduce_u, 1) { reduce<unsigned>(c); }
PROP(reduce_b, 1) { reduce<unsigned char>(c); }
PROP(reduce_l, 1) { reduce<long>(c); }
#endif
#if IN_PART(2)
PROP(equal_dd, 1) { equality<double, double>(c); }
PROP(equal_ii, 1) { equality<int, int>(c); }
#endif
#if IN_PART(3)
PROP(equal_di, 1) { equality<double, int>(c); }
PROP(equal_uu, 1) { equality<unsigned, unsigned>(c); }
#endif
