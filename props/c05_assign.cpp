#include "operands.h"
using namespace my_cnn;

enum AOp { SET, ADD, SUB, MUL, DIV };
static const char* aop(int o) { static const char* n[] = {"=", "+=", "-=", "*=", "/="}; return n[o]; }
// the scalar meaning of one assignment operator
template<class D, class R> static void scalarOp(int op, D& d, R r) {
    switch (op) { case SET: d = static_cast<D>(r); break; case ADD: d += r; break; case SUB: d -= r; break; case MUL: d *= r; break; default: d /= r; }
}
template<class M, class R> static void compound(int op, M&& m, R&& r) {
    switch (op) {
        case ADD: m += std::forward<R>(r); break;
        case SUB: m -= std::forward<R>(r); break;
        case MUL: m *= std::forward<R>(r); break;
        default: m /= std::forward<R>(r); break;
    }
}
template<class M, class R> static void assignAny(int op, M&& m, R&& r) { if (op == SET) m = std::forward<R>(r); else compound(op, m, std::forward<R>(r)); }

struct Block { D3 at, d; };
template<class T> static Ref<T> block(const Ref<T>& r, const Block& b) { Ref<T> o(b.d); o.each([&](int x, int y, int z) { o.at(x, y, z) = r.at(b.at.x + x, b.at.y + y, b.at.z + z); }); return o; }
static Block genBlock(Src& s, const D3& d, bool whole_ok = true) {
    Block b; if (whole_ok && s.chance(1, 4)) { b.d = d; return b; }
    b.d = D3{s.range(1, d.x), s.range(1, d.y), s.range(1, d.z)}; b.at = D3{s.range(0, d.x - b.d.x), s.range(0, d.y - b.d.y), s.range(0, d.z - b.d.z)}; return b;
}
template<class T> static bool hasZero(const Ref<T>& r) { for (auto v : r.v) if (v == T(0)) return true; return false; }
template<class T> static void tame(Ref<T>& r, SimpleMatrix<T>& m) {       // keep integers far from overflow
    for (auto v : r.v) if (!(std::fabs((double)v) < (std::is_integral_v<T> ? 3000 : 1e6))) { Ref<T> n(r.d); for (size_t i = 0; i < n.v.size(); i++) n.v[i] = T((long)(i * 7 % 13) - 6); r = n; m = build(r, 0); return; }
}

// f(rhs, reference value of rhs) for a right-hand side of shape d; M is the matrix being (partly) assigned, ref its value
enum { R_OTHER, R_TEMP, R_VIEW_OTHER, R_SELF_BLOCK, R_SELF_BLOCK_EXPR, R_SELF_T, R_SELF_ROT, R_SELF_MUL, R_EXPR_OTHER, R_SELF_CONV, R_SELF_CAST, NR };
static const char* rname(int k) { static const char* n[] = {"another matrix", "a temporary", "a view of another matrix", "a block of itself", "an expression of a block of itself", "its own transpose", "its own rotation", "a product with itself", "an expression of others", "a convolution of itself", "a reversed block of itself"}; return n[k]; }
template<class D, class R, class F> static bool withRhs(int kind, Src& s, SimpleMatrix<D>& M, const Ref<D>& ref, D3 d, Vc vc, Ctx& c, F&& f) {
    auto other = [&](D3 dd) { Ref<R> o = genRef<R>(s, dd, vc); return o; };
    switch (kind) {
        case R_OTHER: { Ref<R> o = other(d); c.log(" ", o); SimpleMatrix<R> m = build(o, 0); f(m, o); expectEq(m, o, "right-hand matrix afterwards"); return true; }
        case R_TEMP: { Ref<R> o = other(d); c.log(" ", o); f(build(o, 0), o); return true; }
        case R_VIEW_OTHER: { Ref<R> o = other(d); c.log(" ", o); Embedded<R> e(s, o); switch (s.draw(3)) { case 0: f(e.view(), o); break; case 1: { const auto v = e.view(); f(v, o); break; } case 2: { auto v = e.view(); f(v, o); break; } default: { const auto& ce = e; f(ce.cview(), o); } } expectEq(e.view(), o, "right-hand view afterwards"); return true; }
        case R_SELF_BLOCK: case R_SELF_BLOCK_EXPR: case R_SELF_CAST: {
            if (d.x > ref.d.x || d.y > ref.d.y || d.z > ref.d.z) return false;
            Block b; b.d = d; b.at = D3{s.range(0, ref.d.x - d.x), s.range(0, ref.d.y - d.y), s.range(0, ref.d.z - d.z)}; c.log(" from ", b.at); Ref<D> o = block(ref, b);
            if (kind == R_SELF_BLOCK) {
                const SimpleMatrix<D>& cM = M; int how = s.range(0, 4);
                if (how == 2 && d == ref.d) { f(M, o); return true; }
                if (how == 1) f(cM.subMatView(b.at.d(), d.d()), o); else if (how == 3) { const auto v = M.subMatView(b.at.d(), d.d()); f(v, o); } else if (how == 4) { auto v = M.subMatView(b.at.d(), d.d()); f(v, o); } else f(M.subMatView(b.at.d(), d.d()), o);
            } else if (kind == R_SELF_BLOCK_EXPR) {
                Ref<D> w(d); int form = s.range(0, 2); 
                if (form == 0) { for (size_t i = 0; i < w.v.size(); i++) w.v[i] = static_cast<D>(o.v[i] + D(1)); f(M.subMatView(b.at.d(), d.d()) + D(1), w); }
                else if (form == 1) { for (size_t i = 0; i < w.v.size(); i++) w.v[i] = static_cast<D>(o.v[i] - o.v[i] * D(2)); f(M.subMatView(b.at.d(), d.d()) - M.subMatView(b.at.d(), d.d()) * D(2), w); }
                else { for (size_t i = 0; i < w.v.size(); i++) w.v[i] = static_cast<D>(o.v[i] < 0 ? -o.v[i] : o.v[i]); f(my_cnn::abs(M.subMatView(b.at.d(), d.d())), w); }
            } else { Ref<D> w(d); w.each([&](int x, int y, int z) { w.at(x, y, z) = o.at(d.x - 1 - x, d.y - 1 - y, z); }); f(rotate<2>(M.subMatView(b.at.d(), d.d())), w); }
            return true;
        }
        case R_SELF_T: {
            if (!(d == D3{ref.d.y, ref.d.x, ref.d.z})) return false;
            Ref<D> o(d); o.each([&](int x, int y, int z) { o.at(x, y, z) = ref.at(y, x, z); });
            if (s.boolean()) { f(transpose(M), o); } else { const auto& cM = M; Ref<D> w(d); w.each([&](int x, int y, int z) { w.at(x, y, z) = static_cast<D>(o.at(x, y, z) * D(3)); }); f(transpose(cM) * D(3), w); }
            return true;
        }
        case R_SELF_ROT: {
            if (d != ref.d || d.x != d.y) return false; int n = d.x, q = s.range(1, 3); Ref<D> o(d);
            // a quarter turn sends (x, y) to the element at (n-1-y, x)
            o.each([&](int x, int y, int z) { o.at(x, y, z) = q == 1 ? ref.at(n - 1 - y, x, z) : q == 2 ? ref.at(n - 1 - x, n - 1 - y, z) : ref.at(y, n - 1 - x, z); });
            if (q == 1) f(rotate<1>(M), o); else if (q == 2) f(rotate<2>(M), o); else f(rotate<3>(M), o); return true;
        }
        case R_SELF_MUL: {
            if (d != ref.d || d.x != d.y) return false; Ref<D> o(d); Ref<R> k = genRef<R>(s, d, Vc::Ints); bool left = s.boolean(); using T = std::common_type_t<D, R>; Ref<T> w(d);
            if (s.boolean()) { o.each([&](int x, int y, int z) { D t{}; for (int i = 0; i < d.x; i++) t += ref.at(x, i, z) * ref.at(i, y, z); o.at(x, y, z) = t; }); f(matrixMultiply(M, M), o); return true; }
            w.each([&](int x, int y, int z) { T t{}; for (int i = 0; i < d.x; i++) t += left ? k.at(x, i, z) * ref.at(i, y, z) : ref.at(x, i, z) * k.at(i, y, z); w.at(x, y, z) = t; });
            SimpleMatrix<R> K = build(k, 0); if (left) f(matrixMultiply(K, M), w); else f(matrixMultiply(M, K), w); return true;
        }
        case R_EXPR_OTHER: { Ref<R> o = other(d); c.log(" ", o); SimpleMatrix<R> m = build(o, 0); Ref<R> w(d); for (size_t i = 0; i < w.v.size(); i++) w.v[i] = static_cast<R>(o.v[i] + o.v[i]); f(m + m, w); return true; }
        default: {
            if (ref.d.z != 1 || d.z != 1 || d.x > ref.d.x || d.y > ref.d.y) return false; D3 kd{ref.d.x - d.x + 1, ref.d.y - d.y + 1, 1}; Ref<D> k = genRef<D>(s, kd, Vc::Ints), o(d); SimpleMatrix<D> K = build(k, 0);
            o.each([&](int x, int y, int) { D t{}; for (int i = 0; i < kd.x; i++) for (int j = 0; j < kd.y; j++) t += k.at(i, j, 0) * ref.at(x + i, y + j, 0); o.at(x, y, 0) = t; }); f(convolve(M, K, dim2(1, 1)), o); return true;
        }
    }
}

template<class D, class R> static void history(Ctx& c) {
    Src& s = c.s; D3 d = genDimLarge(s, s.chance(1, 10) ? Sz::Normal : Sz::Tiny, 200); if (s.chance(1, 3)) d.y = d.x; if (s.chance(1, 4)) d.z = 1;
    const bool integral = std::is_integral_v<D>; Ref<D> ref = genRef<D>(s, d, Vc::Ints); SimpleMatrix<D> M = build(s, ref); int steps = s.range(1, 4); c.log("M=", ref);
    for (int step = 0; step < steps; step++) {
        d = ref.d; int op = s.range(0, 4), dest = (int)s.weighted({2, 3, 1}), what = (int)s.weighted({4, 1, 1});   // dest: matrix, view, nested view; what: matrix-like, scalar, own element
        Block b; b.d = d; if (dest) b = genBlock(s, d); Block outer = b; if (dest == 2) { outer = genBlock(s, d); Block in = genBlock(s, outer.d); b.d = in.d; b.at = D3{outer.at.x + in.at.x, outer.at.y + in.at.y, outer.at.z + in.at.z}; }
        auto onDest = [&](auto&& g) {
            if (dest == 0) g(M);
            else if (dest == 1) { auto v = M.subMatView(b.at.d(), b.d.d()); g(v); }
            else { auto v = M.subMatView(outer.at.d(), outer.d.d()); auto n = SubMatrixView<D>(v, dim3(b.at.x - outer.at.x, b.at.y - outer.at.y, b.at.z - outer.at.z), b.d.d()); g(n); }
        };
        c.log("; ", dest ? "block " : "M "); if (dest) c.log(b.at, b.d); c.log(" ", aop(op));
        Ref<D> want = ref;
        if (what >= 1) {
            if (op == SET && dest == 0) op = ADD;                          // a matrix has no scalar assignment
            if (what == 2) {                                               // one of the matrix's own elements
                D3 p{s.range(0, d.x - 1), s.range(0, d.y - 1), s.range(0, d.z - 1)}; if (s.boolean()) p = D3{b.at.x + s.range(0, b.d.x - 1), b.at.y + s.range(0, b.d.y - 1), b.at.z + s.range(0, b.d.z - 1)};
                D val = ref.at(p.x, p.y, p.z); if (op == DIV && val == D(0)) op = MUL; c.log(" own element ", p); c.label(std::string("own element ") + aop(op)); c.nontrivial |= b.d.size() > 1;
                for (int z = 0; z < b.d.z; z++) for (int x = 0; x < b.d.x; x++) for (int y = 0; y < b.d.y; y++) scalarOp(op, want.at(b.at.x + x, b.at.y + y, b.at.z + z), val);
                if (s.boolean()) onDest([&](auto&& m) { if (op == SET) { if constexpr (!std::is_same_v<std::decay_t<decltype(m)>, SimpleMatrix<D>>) m = M(p.d()); } else compound(op, m, M(p.d())); });
                else { const D& alias = M(p.x, p.y, p.z); onDest([&](auto&& m) { if (op == SET) { if constexpr (!std::is_same_v<std::decay_t<decltype(m)>, SimpleMatrix<D>>) m = alias; } else compound(op, m, alias); }); }
            } else {
                R k = genVal<R>(s, Vc::Ints); if (!std::is_integral_v<R> && s.boolean()) k += R(0.5); if (op == DIV && k == R(0)) k = R(2); c.log(" scalar ", +k); c.label(std::string("scalar ") + aop(op)); c.nontrivial |= b.d.size() > 1;
                for (int z = 0; z < b.d.z; z++) for (int x = 0; x < b.d.x; x++) for (int y = 0; y < b.d.y; y++) scalarOp(op, want.at(b.at.x + x, b.at.y + y, b.at.z + z), k);
                onDest([&](auto&& m) { if (op == SET) { if constexpr (!std::is_same_v<std::decay_t<decltype(m)>, SimpleMatrix<D>>) m = k; } else compound(op, m, k); });
            }
        } else {
            D3 rd = b.d; bool reshapeAssign = op == SET && dest == 0 && s.boolean(); int kind = s.range(0, NR - 1);
            // products and convolutions: exact whatever the order of summation
            if (!integral && (kind == R_SELF_MUL || kind == R_SELF_CONV)) { const double lim = ref.v.size() > 2000 ? 20 : 60; bool exact = true; for (auto v : ref.v) exact &= v == std::trunc(v) && std::fabs((double)v) <= lim; if (!exact) { for (auto& v : ref.v) v = D(std::trunc(std::fmod((double)v * 3, lim))); M = build(ref, 0); want = ref; c.log(" (now ", ref, ")"); } }
            if (reshapeAssign) rd = s.boolean() ? genDim(s, Sz::Tiny) : kind == R_SELF_T ? D3{d.y, d.x, d.z} : genBlock(s, d).d;
            bool mismatch = !reshapeAssign && s.chance(1, 8) && !(op == SET && dest == 0);
            if (mismatch) { int k = s.range(0, 3); if (k == 0) rd.x++; else if (k == 1) rd.y++; else if (k == 2) rd.z++; else rd = D3{rd.y, rd.x, rd.z}; if (rd == b.d) rd.z++; }
            c.log(" ", rname(kind)); bool bad = rd != b.d && !(op == SET && dest == 0);
            Vc vc = std::is_integral_v<R> ? Vc::Ints : (Vc)s.weighted({2, 1});
            bool ok = withRhs<D, R>(kind, s, M, ref, rd, vc, c, [&](auto&& rhs, const auto& rv) {
                if (op == DIV && hasZero(rv)) op = SUB;
                if (integral) for (auto v : rv.v) if (std::fabs((double)v) > 5e5) return;         // stay representable
                c.label(std::string(rname(kind)) + " " + aop(op) + (dest ? " view" : " matrix")); c.nontrivial |= b.d.size() > 1 || bad;
                if (bad) { onDest([&](auto&& m) { REQUIRE(pbt::throws<MatrixSizeException>([&] { assignAny(op, m, std::forward<decltype(rhs)>(rhs)); }), b.d, " ", aop(op), " ", rd, " accepted"); }); return; }
                if (op == SET && dest == 0) { want = Ref<D>(rd); for (size_t i = 0; i < rv.v.size(); i++) want.v[i] = static_cast<D>(rv.v[i]); }
                else rv.each([&](int x, int y, int z) { scalarOp(op, want.at(b.at.x + x, b.at.y + y, b.at.z + z), rv.at(x, y, z)); });
                onDest([&](auto&& m) { assignAny(op, m, std::forward<decltype(rhs)>(rhs)); });
            });
            if (!ok) { c.log(" (not applicable)"); continue; }
            if (bad) c.label("refused");
        }
        expectEq(M, want, "matrix after the assignment"); ref = want; tame(ref, M);
    }
}
#if IN_PART(0)
PROP(assign_dd, 4) { history<double, double>(c); }
#endif
#if IN_PART(1)
PROP(assign_id, 2) { history<int, double>(c); }
#endif
#if IN_PART(2)
PROP(assign_fd, 2) { history<float, double>(c); }
#endif
#if IN_PART(3)
PROP(assign_di, 2) { history<double, int>(c); }
PROP(assign_ii, 1) { history<int, int>(c); }
#endif
