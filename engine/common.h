// Generators and the naive reference matrix shared by the property harnesses.
#pragma once
#include "pbt.h"
#include <limits>
#include <type_traits>
#include <utility>
#include <algorithm>
#include <numeric>
#include "cnn_from_scratch/Matrix/SimpleMatrix.h"

using my_cnn::dim2;
using my_cnn::dim3;
using my_cnn::SimpleMatrix;
using my_cnn::SubMatrixView;
using my_cnn::MatrixSizeException;
using my_cnn::MatrixTransformException;
using pbt::Ctx;
using pbt::Src;
using pbt::Bulk;

struct D3 {
    int x = 0, y = 0, z = 0;
    long size() const { return (long)x * y * z; }
    dim3 d() const { return dim3(x, y, z); }
    bool operator==(const D3& o) const { return x == o.x && y == o.y && z == o.z; }
    bool operator!=(const D3& o) const { return !(*this == o); }
};
inline std::ostream& operator<<(std::ostream& os, const D3& d) { return os << "(" << d.x << "," << d.y << "," << d.z << ")"; }
inline D3 fromDim(const dim3& d) { D3 r; r.x = d.x; r.y = d.y; r.z = d.z; return r; }

// Reference matrix: its own layout (channel, row, column), no code shared with the library.
template<class T> struct Ref {
    D3 d; std::vector<T> v;
    Ref() = default;
    explicit Ref(D3 dd, T init = T{}) : d(dd), v((size_t)dd.size(), init) {}
    T& at(int x, int y, int z) { return v[((size_t)z * d.x + x) * d.y + y]; }
    const T& at(int x, int y, int z) const { return v[((size_t)z * d.x + x) * d.y + y]; }
    // value at a flat column-major position
    void flatPos(size_t i, int& x, int& y, int& z) const { x = (int)(i % d.x); y = (int)(i / d.x % d.y); z = (int)(i / d.x / d.y); }
    T& flat(size_t i) { int x, y, z; flatPos(i, x, y, z); return at(x, y, z); }
    const T& flat(size_t i) const { int x, y, z; flatPos(i, x, y, z); return at(x, y, z); }
    template<class F> void each(F f) const { for (int z = 0; z < d.z; z++) for (int x = 0; x < d.x; x++) for (int y = 0; y < d.y; y++) f(x, y, z); }
};
template<class T> std::ostream& operator<<(std::ostream& os, const Ref<T>& r) {
    os << r.d << "{"; size_t n = 0;
    for (int z = 0; z < r.d.z; z++) { if (z) os << " || "; for (int x = 0; x < r.d.x; x++) { if (x) os << "; "; for (int y = 0; y < r.d.y; y++) { if (++n > 40) return os << "...}"; os << (y ? " " : "") << +r.at(x, y, z); } } }
    return os << "}";
}

// ---------------------------------------------------------------- shapes
enum class Sz { Tiny, Normal, Big };
inline D3 genDim(Src& s, Sz p = Sz::Normal) {
    D3 d;
    size_t k = p == Sz::Tiny ? 0 : p == Sz::Normal ? s.weighted({60, 25, 10, 5}) : s.weighted({55, 22, 12, 8, 3});
    switch (k) {
        case 0: d.x = s.range(1, 5); d.y = s.range(1, 5); d.z = s.range(1, 3); break;
        case 1: d.x = s.range(1, 13); d.y = s.range(1, 13); d.z = s.range(1, 6); break;
        case 2: { int a = s.range(0, 2); int b[3] = {s.range(1, 3), s.range(1, 3), s.range(1, 3)}; b[a] = s.range(1, 300); d.x = b[0]; d.y = b[1]; d.z = b[2]; break; }
        case 3: d.x = s.range(1, 40); d.y = s.range(1, 40); d.z = s.range(1, 4); break;
        default: { d.x = s.range(1, 320); d.y = s.range(1, 320); d.z = s.range(1, 3); break; }
    }
    return d;
}
inline D3 genDimLarge(Src& s, Sz p, int odds = 80) {       // the same, with a few matrices of more than 4096 elements per channel
    if (!s.chance(1, odds)) return genDim(s, p);
    D3 d; d.x = s.range(50, 130); d.y = s.range(50, 130); d.z = s.range(1, 3); return d;
}
inline D3 genDimOrEmpty(Src& s, Sz p = Sz::Normal) {
    D3 d = genDim(s, p);
    if (s.chance(1, 20)) { int m = s.range(1, 7); if (m & 1) d.x = 0; if (m & 2) d.y = 0; if (m & 4) d.z = 0; }
    return d;
}
inline const char* szLabel(const D3& d) { long n = d.size(); return n == 0 ? "size:0" : n == 1 ? "size:1" : n <= 24 ? "size:2-24" : n <= 256 ? "size:25-256" : n <= 4096 ? "size:257-4096" : n <= 65536 ? "size:4097-65536" : "size:>65536"; }

// ---------------------------------------------------------------- values
enum class Vc { Ints, Reals, Wide };     // small integers | decimals of ordinary size | any finite magnitude
inline Vc genVc(Src& s) { return (Vc)s.weighted({5, 4, 2}); }

template<class T> T valueFrom(uint64_t r, Vc vc) {
    if constexpr (std::is_integral_v<T>) {
        if constexpr (sizeof(T) == 1) return (T)(r % 256);
        else if constexpr (std::is_unsigned_v<T>) return vc == Vc::Wide ? (T)(r % 100000) : (T)(r % 20);
        else { long m = vc == Vc::Wide ? 20000 : 9; long v = (long)(r % (2 * m + 1)); return (T)((v + 1) / 2 * ((v & 1) ? 1 : -1)); }
    } else {
        switch (vc) {
            case Vc::Ints: { long v = (long)(r % 19); return (T)((v + 1) / 2 * ((v & 1) ? 1 : -1)); }
            case Vc::Reals: { long v = (long)(r % 2000001); T a = (T)((v + 1) / 2) / (T)100000.0; return (v & 1) ? a : -a; }
            default: {
                static const double special[] = {0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1e-6, -1e-6, 1e-30, -1e-30, 1e20, -1e20, 255, -255, 65536, 3.0000001, 1e-300, 1e300, -1e300, 4.9e-324, 0.1, -0.1};
                uint64_t k = r % 3; r /= 3;
                if (k == 0) { double v = special[r % (sizeof special / sizeof *special)]; if (std::is_same_v<T, float> && (std::fabs(v) > 1e30)) v = v > 0 ? 1e30 : -1e30; return (T)v; }
                double m = (double)(r % 1000003) / 1000003.0 * 2 - 1; r /= 1000003;
                int e = (int)(r % 121) - 60; return (T)std::ldexp(m, k == 1 ? e / 10 : e);
            }
        }
    }
}
template<class T> T genVal(Src& s, Vc vc) {
    uint64_t m = std::is_integral_v<T> ? (sizeof(T) == 1 ? 255 : vc == Vc::Wide ? 100000 : 19) : vc == Vc::Ints ? 18 : vc == Vc::Reals ? 2000000 : 0xFFFFFFFFFFull;
    return valueFrom<T>(s.draw(m), vc);
}
template<class T> Ref<T> genRef(Src& s, D3 d, Vc vc) {
    Ref<T> r(d);
    if (d.size() <= 24) { for (auto& v : r.v) v = genVal<T>(s, vc); }
    else {
        Bulk b(s.draw(0xFFFFFFFF)); int pat = (int)s.weighted({8, 1, 1});
        if (pat == 0) for (auto& v : r.v) v = valueFrom<T>(b.next(), vc);
        else if (pat == 1) { T a = valueFrom<T>(b.next(), vc), e = valueFrom<T>(b.next(), vc); for (auto& v : r.v) v = b.below(8) ? a : e; }   // nearly constant
        else { for (auto& v : r.v) v = T{}; for (int k = 0; k < 3; k++) r.v[b.below(r.v.size())] = valueFrom<T>(b.next(), vc); }              // sparse
    }
    return r;
}
// A permutation-valued matrix: all elements different.
template<class T> Ref<T> genDistinct(Src& s, D3 d) {
    Ref<T> r(d); size_t n = r.v.size(); std::vector<size_t> p(n); std::iota(p.begin(), p.end(), 0);
    if (n <= 24) { for (size_t i = n; i > 1; i--) std::swap(p[i - 1], p[i - 1 - s.draw(i - 1)]); }
    else { Bulk b(s.draw(0xFFFFFFFF)); for (size_t i = n; i > 1; i--) std::swap(p[i - 1], p[b.below(i)]); }
    for (size_t i = 0; i < n; i++) r.v[i] = (T)((double)p[i] - (double)(n / 2)) ;
    return r;
}

// ---------------------------------------------------------------- building library matrices from references
template<class T> SimpleMatrix<T> build(const Ref<T>& r, int how = 0) {
    SimpleMatrix<T> m(r.d.d());
    switch (how) {
        case 0: r.each([&](int x, int y, int z) { m(x, y, z) = r.at(x, y, z); }); break;
        case 1: r.each([&](int x, int y, int z) { m(dim3(x, y, z)) = r.at(x, y, z); }); break;
        case 2: m.setEntries(std::vector<T>(r.v)); break;                       // Ref layout is row-major per channel
        case 3: { std::vector<T> f(r.v.size()); for (size_t i = 0; i < f.size(); i++) f[i] = r.flat(i); m = std::move(f); break; }
        case 4: for (size_t i = 0; i < r.v.size(); i++) m[i] = r.flat(i); break;
        case 5: for (auto it = m.begin(); it != m.end(); ++it) { dim3 p = it.idx(); *it = r.at(p.x, p.y, p.z); } break;
        default: return SimpleMatrix<T>(r.d.d(), std::vector<T>(r.v)); 
    }
    return m;
}
template<class T> SimpleMatrix<T> build(Src& s, const Ref<T>& r) { return build(r, (int)s.draw(6)); }

template<class A, class B> bool same(A a, B b) {
    if constexpr (std::is_floating_point_v<A> || std::is_floating_point_v<B>) { if (std::isnan((double)a) && std::isnan((double)b)) return true; }
    return a == b;
}
// matrix-like (matrix, view, expression) equals reference exactly
template<class M, class T> void expectEq(const M& m, const Ref<T>& r, const char* what) {
    if (fromDim(m.dim()) != r.d) pbt::fail(what, ": shape ", fromDim(m.dim()), " expected ", r.d);
    r.each([&](int x, int y, int z) {
        auto got = m(dim3(x, y, z));
        if (!same(got, r.at(x, y, z))) pbt::fail(what, ": element (", x, ",", y, ",", z, ") of ", r.d, " is ", +got, " expected ", +r.at(x, y, z));
    });
}
// within tol(x,y,z)
template<class M, class T, class Tol> void expectNear(const M& m, const Ref<T>& r, Tol tol, const char* what) {
    if (fromDim(m.dim()) != r.d) pbt::fail(what, ": shape ", fromDim(m.dim()), " expected ", r.d);
    r.each([&](int x, int y, int z) {
        double got = (double)m(dim3(x, y, z)), want = (double)r.at(x, y, z), t = (double)tol(x, y, z);
        if (std::isnan(want) && std::isnan(got)) return;
        if (got == want) return;
        if (!(std::fabs(got - want) <= t)) pbt::fail(what, ": element (", x, ",", y, ",", z, ") of ", r.d, " is ", got, " expected ", want, " +- ", t);
    });
}
template<class M, class T> void expectNear(const M& m, const Ref<T>& r, double tol, const char* what) { expectNear(m, r, [tol](int, int, int) { return tol; }, what); }

template<class M> auto toRef(const M& m) { using T = std::remove_cv_t<typename M::type>; Ref<T> r(fromDim(m.dim())); r.each([&](int x, int y, int z) { r.at(x, y, z) = m(dim3(x, y, z)); }); return r; }
template<class T> bool refSame(const Ref<T>& a, const Ref<T>& b) { if (a.d != b.d) return false; for (size_t i = 0; i < a.v.size(); i++) if (!same(a.v[i], b.v[i])) return false; return true; }
