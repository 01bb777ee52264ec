#include "operands.h"
using namespace my_cnn;

template<class A, class B> using C2 = std::common_type_t<A, B>;
template<class T, class M> static void agrees(M&& e, const Ref<T>& want, const Ref<double>& mag, bool exact, const char* what) {
    double eps = exact ? 0 : (std::is_same_v<T, float> ? 1e-5 : 1e-12);
    auto tol = [&](int x, int y, int z) { return eps * mag.at(x, y, z) + (exact ? 0 : 1e-300); };
    expectNear(e, want, tol, what);
    if ((long)e.size() != want.d.size()) pbt::fail(what, ": size ", e.size());
    SimpleMatrix<T> ev(e); expectNear(ev, want, tol, what);
    want.each([&](int x, int y, int z) { if (!same(e(x, y, z), ev(x, y, z))) pbt::fail(what, ": evaluation differs from element access"); });
    size_t k = 0; for (auto it = e.begin(); it != e.end(); ++it) { if (k >= want.v.size()) pbt::fail(what, ": iterates too far"); dim3 p = it.idx(); if (!same(*it, ev(p))) pbt::fail(what, ": iteration"); k++; } if (k != want.v.size()) pbt::fail(what, ": iterates ", k);
}
template<class A, class B> static void product(Ctx& c) {
    Src& s = c.s; using T = C2<A, B>; Vc vc = (Vc)s.weighted({3, 1});
    bool big = s.chance(1, 40);
    int n = s.range(1, big ? 40 : 6), k = s.range(1, big ? 40 : 6), m = s.range(1, big ? 40 : 6), z = s.range(1, 3);
    if (s.chance(1, 60)) { n = s.range(1, 3); k = s.range(1, 3); m = s.range(1, 3); (s.boolean() ? k : s.boolean() ? n : m) = s.range(1, 3000); c.label("long"); }
    else if (s.chance(1, 300)) { n = s.range(30, 100); k = s.range(30, 100); m = s.range(30, 100); z = s.range(1, 2); c.label("wide in every dimension"); }
    D3 da{n, k, z}, db{k, m, z};
    if (s.chance(1, 6)) { int w = s.range(0, 2); if (w == 0) db.x += s.range(1, 3); else if (w == 1) db.z += s.range(1, 2); else db = D3{s.range(1, 6), s.range(1, 6), s.range(1, 3)}; }
    bool ok = da.y == db.x && da.z == db.z;
    Ref<A> a = genRef<A>(s, da, vc); Ref<B> b = genRef<B>(s, db, vc);
    int ka = genKind4(s), kb = genKind4(s);
    c.log(kindName(ka), " ", a, " x ", kindName(kb), " ", b); c.label(ok ? "product" : "refused product"); c.label(std::string(kindName(ka)) + " x " + kindName(kb));
    c.nontrivial = !ok || (k > 1 && (n > 1 || m > 1));
    Ref<T> want; Ref<double> mag;
    if (ok) { D3 dr{da.x, db.y, da.z}; want = Ref<T>(dr); mag = Ref<double>(dr);
        want.each([&](int x, int y, int zz) { double acc = 0, ab = 0; for (int i = 0; i < da.y; i++) { double p = (double)a.at(x, i, zz) * (double)b.at(i, y, zz); acc += p; ab += std::fabs(p); } want.at(x, y, zz) = (T)acc; mag.at(x, y, zz) = ab * (da.y + 2); }); }
    bool exact = vc == Vc::Ints || std::is_integral_v<T>;
    withKind4(ka, s, a, [&](auto&& A1) { withKind4(kb, s, b, [&](auto&& B1) {
        if (!ok) { bool t = pbt::throws<MatrixSizeException>([&] { (void)matrixMultiply(std::forward<decltype(A1)>(A1), std::forward<decltype(B1)>(B1)); }); REQUIRE(t, "product of ", da, " and ", db, " accepted"); return; }
        auto e = matrixMultiply(std::forward<decltype(A1)>(A1), std::forward<decltype(B1)>(B1));
        agrees<T>(e, want, mag, exact, "matrix product");
    }); });
}
template<class A, class B> static void dots(Ctx& c) {
    Src& s = c.s; Vc vc = (Vc)s.weighted({2, 3}); int n = s.chance(1, 20) ? s.range(1, s.boolean() ? 500 : 6000) : s.range(1, 12), m = s.chance(1, 6) ? s.range(1, 12) : n;
    D3 da = s.boolean() ? D3{n, 1, 1} : D3{1, n, 1}, db = s.boolean() ? D3{m, 1, 1} : D3{1, m, 1};
    if (s.chance(1, 8)) { if (s.boolean()) db = D3{s.range(1, 4), s.range(1, 4), 1}; else db = D3{1, 1, n}; }
    auto vec = [](const D3& d) { return d.z == 1 && (d.x == 1 || d.y == 1); };
    bool ok = da.size() == db.size() && vec(da) && vec(db);
    Ref<A> a = genRef<A>(s, da, vc); Ref<B> b = genRef<B>(s, db, vc); int ka = genKind4(s), kb = genKind4(s);
    c.log(kindName(ka), " ", a, " . ", kindName(kb), " ", b); c.label(ok ? "dot" : "refused dot"); c.nontrivial = !ok || n > 1;
    double acc = 0, mag = 0; if (ok) for (long i = 0; i < da.size(); i++) { double p = (double)a.flat(i) * (double)b.flat(i); acc += p; mag += std::fabs(p); }
    withKind4(ka, s, a, [&](auto&& A1) { withKind4(kb, s, b, [&](auto&& B1) {
        if (!ok) { REQUIRE(pbt::throws<MatrixSizeException>([&] { (void)dot(A1, B1); }), "dot product of ", da, " and ", db, " accepted"); return; }
        auto d = dot(A1, B1); using R = C2<A, B>;
        if (std::is_floating_point_v<R>) REQUIRE(std::is_floating_point_v<decltype(d)>, "dot product of reals is not real");
        double tol = std::is_integral_v<R> || vc == Vc::Ints ? 0 : (std::is_same_v<R, float> ? 1e-5 : 1e-12) * mag * (n + 2);
        REQUIRE(std::fabs((double)d - acc) <= tol, "dot product is ", (double)d, " expected ", acc);
    }); });
}
template<class T> static void turns(Ctx& c) {
    Src& s = c.s; D3 d = genDim(s, s.chance(1, 4) ? Sz::Normal : Sz::Tiny); if (s.chance(1, 2)) { if (s.boolean()) d.x = d.y; else d.y = d.x; if (d.size() > 4000) d.z = 1; }
    Ref<T> a = s.chance(2, 3) ? genDistinct<T>(s, d) : genRef<T>(s, d, genVc(s)); int k = s.range(0, N_KINDS - 1), steps = s.range(0, 3);
    Vc dummy = Vc::Ints; (void)dummy;
    c.log(steps ? "rotate " : "transpose ", steps, " ", kindName(k), " ", a); c.label(steps ? "rotate " + std::to_string(steps) : "transpose"); c.label(kindName(k)); c.nontrivial = d.x > 1 && d.y > 1;
    // quarter turn taking element (n-1-y, x) to (x, y)
    auto turn = [&](const Ref<T>& r) { Ref<T> o(D3{r.d.y, r.d.x, r.d.z}); o.each([&](int x, int y, int z) { o.at(x, y, z) = r.at(r.d.x - 1 - y, x, z); }); return o; };
    Ref<double> mag;
    withKind(k, s, a, [&](auto&& A) {
        using F = decltype(A);
        if (steps == 0) {
            Ref<T> want(D3{d.y, d.x, d.z}); want.each([&](int x, int y, int z) { want.at(x, y, z) = a.at(y, x, z); }); mag = Ref<double>(want.d);
            auto e = transpose(std::forward<F>(A)); agrees<T>(e, want, mag, true, "transpose");
            auto back = transpose(e); agrees<T>(back, a, Ref<double>(a.d), true, "transpose of a transpose");
            SimpleMatrix<T> ev(e); auto t2 = transpose(std::move(ev)); agrees<T>(t2, a, Ref<double>(a.d), true, "transpose of a moved matrix");
        } else {
            bool ok = steps == 2 || d.x == d.y;
            Ref<T> want = a; for (int i = 0; i < steps; i++) want = turn(want);
            auto run = [&](auto N) {
                constexpr size_t n = decltype(N)::value;
                if (!ok) { REQUIRE(pbt::throws<MatrixTransformException>([&] { (void)rotate<n>(std::forward<F>(A)); }), "quarter turn of ", d, " accepted"); return; }
                auto e = rotate<n>(std::forward<F>(A)); agrees<T>(e, want, Ref<double>(want.d), true, "rotation");
                auto back = rotate<4 - n>(e); agrees<T>(back, a, Ref<double>(a.d), true, "rotation there and back");
            };
            if (steps == 1) run(std::integral_constant<size_t, 1>()); else if (steps == 2) run(std::integral_constant<size_t, 2>()); else run(std::integral_constant<size_t, 3>());
        }
    });
}
#if IN_PART(0)
// nested: product of transposed operands equals the transposed product
PROP(nested, 1) {
    Src& s = c.s; int n = s.range(1, 5), k = s.range(1, 5), m = s.range(1, 5), z = s.range(1, 2);
    Ref<double> a = genRef<double>(s, D3{n, k, z}, Vc::Ints), b = genRef<double>(s, D3{k, m, z}, Vc::Ints);
    SimpleMatrix<double> A = build(a, 0), B = build(b, 0); c.nontrivial = k > 1 && n > 1; c.log(a, b);
    SimpleMatrix<double> P = matrixMultiply(A, B), Q = transpose(matrixMultiply(transpose(B), transpose(A))), R = matrixMultiply(SimpleMatrix<double>(A), transpose(transpose(B)));
    SimpleMatrix<double> S = transpose(matrixMultiply(transpose(SimpleMatrix<double>(B)), transpose(SimpleMatrix<double>(A))));
    expectEq(Q, toRef(P), "transposed product of transposes"); expectEq(R, toRef(P), "product with a double transpose"); expectEq(S, toRef(P), "transposed product of transposed temporaries");
    SimpleMatrix<double> T1 = matrixMultiply(A + A, B - B * 2); Ref<double> w = toRef(P); for (auto& v : w.v) v *= -2; expectEq(T1, w, "product of expressions");
}
#endif
#if IN_PART(0)
PROP(products_dd, 2) { product<double, double>(c); }
PROP(turns_d, 2) { turns<double>(c); }
#endif
#if IN_PART(1)
PROP(products_ii, 1) { product<int, int>(c); }
PROP(turns_i, 1) { turns<int>(c); }
PROP(turns_f, 1) { turns<float>(c); }
#endif
#if IN_PART(2)
PROP(products_fd, 1) { product<float, double>(c); }
PROP(dots_dd, 1) { dots<double, double>(c); }
PROP(dots_ii, 1) { dots<int, int>(c); }
#endif
#if IN_PART(3)
PROP(products_id, 1) { product<int, double>(c); }
PROP(dots_fd, 1) { dots<float, double>(c); }
PROP(dots_di, 1) { dots<double, int>(c); }
PROP(dots_uu, 1) { dots<unsigned char, unsigned char>(c); }
#endif
