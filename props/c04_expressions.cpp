#include "operands.h"
using namespace my_cnn;
template<class A, class B> using CT = std::common_type_t<A, B>;

enum Op { ADD, SUB, MUL, DIV, LT, LE, GT, GE, EQ, NE, NOPS };
static const char* opName(int o) { static const char* n[] = {"+", "-", "*", "/", "<", "<=", ">", ">=", "==", "!="}; return n[o]; }
// f is called with a function object applying the operator to anything (matrices or scalars)
template<class F> static void withOp(int op, F&& f) {
    switch (op) {
        case ADD: f([](auto&& a, auto&& b) { return std::forward<decltype(a)>(a) + std::forward<decltype(b)>(b); }); break;
        case SUB: f([](auto&& a, auto&& b) { return std::forward<decltype(a)>(a) - std::forward<decltype(b)>(b); }); break;
        case MUL: f([](auto&& a, auto&& b) { return std::forward<decltype(a)>(a) * std::forward<decltype(b)>(b); }); break;
        case DIV: f([](auto&& a, auto&& b) { return std::forward<decltype(a)>(a) / std::forward<decltype(b)>(b); }); break;
        case LT: f([](auto&& a, auto&& b) { return std::forward<decltype(a)>(a) < std::forward<decltype(b)>(b); }); break;
        case LE: f([](auto&& a, auto&& b) { return std::forward<decltype(a)>(a) <= std::forward<decltype(b)>(b); }); break;
        case GT: f([](auto&& a, auto&& b) { return std::forward<decltype(a)>(a) > std::forward<decltype(b)>(b); }); break;
        case GE: f([](auto&& a, auto&& b) { return std::forward<decltype(a)>(a) >= std::forward<decltype(b)>(b); }); break;
        case EQ: f([](auto&& a, auto&& b) { return std::forward<decltype(a)>(a) == std::forward<decltype(b)>(b); }); break;
        default: f([](auto&& a, auto&& b) { return std::forward<decltype(a)>(a) != std::forward<decltype(b)>(b); }); break;
    }
}
template<class T> static void noZero(Ref<T>& r) { for (auto& v : r.v) if (v == T(0)) v = T(3); }

template<class T, class E> static void denotes(const E& e, const Ref<T>& want, const char* what) {
    if (!std::is_same_v<std::remove_cv_t<typename E::type>, T>) pbt::fail(what, ": the element type is not the common type of the operands");
    expectEq(e, want, what);
    if ((long)e.size() != want.d.size()) pbt::fail(what, ": size ", e.size());
    want.each([&](int x, int y, int z) { if (!same(e(x, y, z), want.at(x, y, z))) pbt::fail(what, ": three-index access at (", x, ",", y, ",", z, ")"); });
    size_t k = 0; for (auto it = e.begin(); it != e.end(); ++it) { if (k >= want.v.size()) pbt::fail(what, ": iterates too far"); if (!same(*it, want.flat(k))) pbt::fail(what, ": iteration step ", k); k++; }
    if (k != want.v.size()) pbt::fail(what, ": iterates ", k, " of ", want.v.size());
    SimpleMatrix<T> ev(e); expectEq(ev, want, what); SimpleMatrix<T> as; as = e; expectEq(as, want, what);
}
static void churn(Src& s) { for (int i = 0; i < 3; i++) { std::vector<double> junk((size_t)s.range(1, 40), -1e9); volatile double x = junk[0]; (void)x; } }   // reuse freed memory

template<class A, class B> static void binary(Ctx& c) {
    Src& s = c.s; using T = CT<A, B>; D3 d = genDimLarge(s, s.chance(1, 6) ? Sz::Normal : Sz::Tiny, 200); Vc vc = genVc(s); int op = s.range(0, NOPS - 1);
    Ref<A> a = genRef<A>(s, d, vc); D3 d2 = d; bool mismatch = s.chance(1, 8);
    if (mismatch) { int k = s.range(0, 3); if (k == 0) d2.x++; else if (k == 1) d2.y++; else if (k == 2) d2.z++; else d2 = D3{d.y, d.x, d.z}; }
    Ref<B> b = genRef<B>(s, d2, vc); if (s.chance(1, 3) && d2 == d) for (size_t i = 0; i < b.v.size(); i += 2) b.v[i] = (B)a.v[i];   // so that comparisons meet equal elements
    if (op == DIV && std::is_integral_v<T>) noZero(b);
    int ka = genKind4(s), kb = genKind4(s); c.log(kindName(ka), " ", a, " ", opName(op), " ", kindName(kb), " ", b); c.label(std::string("matrix ") + opName(op) + " matrix"); c.label(std::string(kindName(ka)) + "," + kindName(kb));
    c.nontrivial = d2 != d || d.size() > 1;
    withOp(op, [&](auto f) {
        if (d2 != d) { withKind4(ka, s, a, [&](auto&& X) { withKind4(kb, s, b, [&](auto&& Y) { REQUIRE(pbt::throws<MatrixSizeException>([&] { (void)f(std::forward<decltype(X)>(X), std::forward<decltype(Y)>(Y)); }), d, " ", opName(op), " ", d2, " accepted"); }); }); return; }
        Ref<T> want(d); for (size_t i = 0; i < want.v.size(); i++) want.v[i] = static_cast<T>(f(a.v[i], b.v[i]));
        withKind4(ka, s, a, [&](auto&& X) { withKind4(kb, s, b, [&](auto&& Y) { auto e = f(std::forward<decltype(X)>(X), std::forward<decltype(Y)>(Y)); churn(s); denotes<T>(e, want, "element-wise expression"); }); });
    });
}
template<class A, class S> static void scalar(Ctx& c) {
    Src& s = c.s; using T = CT<A, S>; D3 d = genDimOrEmpty(s, s.chance(1, 6) ? Sz::Normal : Sz::Tiny); Vc vc = genVc(s); int op = s.range(0, NOPS - 1); Ref<A> a = genRef<A>(s, d, vc); S k = genVal<S>(s, vc); bool left = s.boolean();
    if (s.chance(1, 3) && !a.v.empty()) k = (S)a.v[s.draw(a.v.size() - 1)];
    if (op == DIV && std::is_integral_v<T>) { noZero(a); if (k == S(0)) k = S(2); }
    int ka = s.range(0, N_KINDS - 1); if (left) c.log(+k, " ", opName(op), " ", kindName(ka), " ", a); else c.log(kindName(ka), " ", a, " ", opName(op), " ", +k);
    c.label(left ? std::string("scalar ") + opName(op) + " matrix" : std::string("matrix ") + opName(op) + " scalar"); c.label(kindName(ka)); c.nontrivial = d.size() > 1;
    withOp(op, [&](auto f) {
        Ref<T> want(d); for (size_t i = 0; i < want.v.size(); i++) want.v[i] = left ? static_cast<T>(f(k, a.v[i])) : static_cast<T>(f(a.v[i], k));
        withKind4(ka == CONST_LVALUE ? LVALUE : ka == VIEW ? CONST_VIEW : ka, s, a, [&](auto&& X) {
            auto once = [&](auto&& e) { churn(s); denotes<T>(e, want, "expression with a scalar"); };
            if (left) { S tmp = k; auto e = f(tmp, std::forward<decltype(X)>(X)); tmp = S(99); once(e); } else { S tmp = k; auto e = f(std::forward<decltype(X)>(X), tmp); tmp = S(99); once(e); }
        });
    });
}
template<class A> static void unary(Ctx& c) {
    Src& s = c.s; D3 d = genDimOrEmpty(s, s.chance(1, 6) ? Sz::Normal : Sz::Tiny); Vc vc = genVc(s); if (vc == Vc::Wide) vc = Vc::Reals; Ref<A> a = genRef<A>(s, d, vc); int k = s.range(0, N_KINDS - 1), op = s.range(0, 4);
    c.log("unary ", op, " ", kindName(k), " ", a); c.label("unary " + std::to_string(op)); c.label(kindName(k)); c.nontrivial = d.size() > 1; double off = s.range(-4, 4) * 0.5;
    Ref<A> want(d);
    if (op == 0) { for (size_t i = 0; i < want.v.size(); i++) want.v[i] = (A)(a.v[i] < 0 ? -a.v[i] : a.v[i]); withKind(k, s, a, [&](auto&& X) { auto e = my_cnn::abs(std::forward<decltype(X)>(X)); churn(s); denotes<A>(e, want, "abs"); }); SimpleMatrix<A> m = build(a, 0); expectEq(m.abs(), want, "member abs"); expectEq(m, a, "operand of member abs"); }
    else if (op == 1) { for (size_t i = 0; i < want.v.size(); i++) want.v[i] = static_cast<A>(std::exp(a.v[i])); withKind(k, s, a, [&](auto&& X) { auto e = my_cnn::exp(std::forward<decltype(X)>(X)); churn(s); denotes<A>(e, want, "exp"); }); }
    else if (op == 2) { auto fn = [off](A v) { return v * 2 + off; }; for (size_t i = 0; i < want.v.size(); i++) want.v[i] = static_cast<A>(fn(a.v[i])); withKind(k, s, a, [&](auto&& X) { auto e = apply(std::forward<decltype(X)>(X), fn); churn(s); denotes<A>(e, want, "apply"); }); }
    else if (op == 3) { auto fn = [off](A v) { return (A)(v * 3 + off); }; for (size_t i = 0; i < want.v.size(); i++) want.v[i] = fn(a.v[i]); SimpleMatrix<A> m = build(a, 0); modify(m, fn); expectEq(m, want, "modify");
        if (d.size()) { Embedded<A> em(s, a); SimpleMatrix<A> host = em.host; auto v = em.view(); modify(v, fn); expectEq(v, want, "modify of a view"); Ref<A> hw = toRef(host); want.each([&](int x, int y, int z) { hw.at(em.at.x + x, em.at.y + y, em.at.z + z) = want.at(x, y, z); }); expectEq(em.host, hw, "parent after modify of a view"); } }
    else { for (size_t i = 0; i < want.v.size(); i++) want.v[i] = static_cast<A>(static_cast<A>(std::exp(static_cast<A>(a.v[i] < 0 ? -a.v[i] : a.v[i]))) - 1); withKind(k, s, a, [&](auto&& X) { auto e = my_cnn::exp(my_cnn::abs(std::forward<decltype(X)>(X))) - A(1); churn(s); denotes<A>(e, want, "nested unary"); }); }
}
// Random expression trees of fixed forms, re-evaluated after the named operands changed.
template<class A, class B> static void trees(Ctx& c) {
    Src& s = c.s; using T = CT<A, B>; D3 d = genDim(s, Sz::Tiny); Vc vc = (Vc)s.weighted({3, 2}); Ref<A> a = genRef<A>(s, d, vc); Ref<B> b = genRef<B>(s, d, vc), g = genRef<B>(s, d, vc); noZero(b); A k = A(s.range(1, 5)); int form = s.range(0, 7);
    c.log("tree ", form, " a=", a, " b=", b, " g=", g, " k=", +k); c.label("tree " + std::to_string(form)); c.nontrivial = d.size() > 1;
    SimpleMatrix<A> MA = build(a, 0); SimpleMatrix<B> MB = build(b, 0), MG = build(g, 0); Embedded<B> EG(s, g);
    auto run = [&](auto&& mk, auto&& sc) {
        auto e = mk(MA, MB, MG, EG); using R = std::remove_cv_t<typename decltype(e)::type>; churn(s);
        for (int round = 0; round < 2; round++) {
            Ref<R> want(d); want.each([&](int x, int y, int z) { want.at(x, y, z) = (R)sc(a.at(x, y, z), b.at(x, y, z), g.at(x, y, z)); });
            denotes<R>(e, want, round ? "expression after its operands changed" : "expression tree");
            expectEq(MA, a, "operand a"); expectEq(MB, b, "operand b"); expectEq(EG.view(), g, "operand g");
            if (round == 0) { D3 p{s.range(0, d.x - 1), s.range(0, d.y - 1), s.range(0, d.z - 1)}; A na = genVal<A>(s, vc); B nb = (B)s.range(1, 9), ng = genVal<B>(s, vc); MA(p.d()) = na; a.at(p.x, p.y, p.z) = na; MB(p.d()) = nb; b.at(p.x, p.y, p.z) = nb; MG(p.d()) = ng; EG.host(EG.at.x + p.x, EG.at.y + p.y, EG.at.z + p.z) = ng; g.at(p.x, p.y, p.z) = ng; }
        }
    };
    switch (form) {
        case 0: run([&](auto& A1, auto& B1, auto& G1, auto&) { return (A1 + B1) * G1 - k; }, [&](A x, B y, B z) { return T(T(T(x + y) * z) - k); }); break;
        case 1: run([&](auto& A1, auto& B1, auto& G1, auto&) { return k - A1 / B1 + G1 * 2; }, [&](A x, B y, B z) { return T(T(k - T(x / y)) + CT<B, int>(z * 2)); }); break;
        case 2: run([&](auto& A1, auto& B1, auto&, auto& E) { return (A1 - E.view()) * (B1 + A1); }, [&](A x, B y, B z) { return T(T(x - z) * T(y + x)); }); break;
        case 3: run([&](auto& A1, auto& B1, auto& G1, auto&) { return (A1 < B1) * A1 + (A1 >= B1) * G1; }, [&](A x, B y, B z) { return T(T(T(x < y) * x) + T(T(x >= y) * z)); }); break;
        case 4: run([&](auto& A1, auto& B1, auto&, auto&) { return my_cnn::abs(A1 * k) / B1; }, [&](A x, B y, B) { A t = (A)(x * k); t = (A)(t < 0 ? -t : t); return T(t / y); }); break;
        case 5: run([&](auto& A1, auto& B1, auto& G1, auto&) { return ((A1 + k) + (B1 - G1)) * ((A1 + k) + (B1 - G1)); }, [&](A x, B y, B z) { T t = T(A(x + k) + B(y - z)); return T(t * t); }); break;
        case 6: run([&](auto& A1, auto& B1, auto&, auto& E) { const auto& cE = E; return 1 - (A1 == cE.cview()) + (B1 != A1); }, [&](A x, B y, B z) { return CT<CT<int, T>, T>(CT<int, T>(1 - T(x == z)) + T(y != x)); }); break;
        default: run([&](auto& A1, auto& B1, auto&, auto&) { return apply(A1 + 0, [](auto v) { return v * v; }) - transpose(transpose(B1)); }, [&](A x, B y, B) { CT<A, int> t = x; t = t * t; return CT<CT<A, int>, B>(t - y); }); break;
    }
}
#if IN_PART(0)
PROP(binary_dd, 4) { binary<double, double>(c); }
#endif
#if IN_PART(1)
PROP(binary_ii, 3) { binary<int, int>(c); }
#endif
#if IN_PART(2)
PROP(binary_fd, 2) { binary<float, double>(c); }
#endif
#if IN_PART(3)
PROP(binary_id, 2) { binary<int, double>(c); }
#endif
#if IN_PART(4)
PROP(scalar_dd, 2) { scalar<double, double>(c); }
PROP(scalar_di, 2) { scalar<double, int>(c); }
PROP(scalar_id, 2) { scalar<int, double>(c); }
#endif
#if IN_PART(5)
PROP(scalar_ui, 2) { scalar<unsigned char, int>(c); }
PROP(scalar_ff, 1) { scalar<float, float>(c); }
PROP(scalar_ii, 1) { scalar<int, int>(c); }
#endif
#if IN_PART(6)
PROP(unary_d, 3) { unary<double>(c); }
PROP(unary_i, 2) { unary<int>(c); }
PROP(unary_f, 1) { unary<float>(c); }
#endif
#if IN_PART(7)
PROP(trees_dd, 2) { trees<double, double>(c); }
PROP(trees_id, 2) { trees<int, double>(c); }
PROP(trees_ii, 2) { trees<int, int>(c); }
#endif
