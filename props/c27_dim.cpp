#include "common.h"
using my_cnn::Dim; using my_cnn::DimIterator;

template<int N> static Dim<N> mk(const int* v) { if constexpr (N == 2) return Dim<2>(v[0], v[1]); else return Dim<3>(v[0], v[1], v[2]); }
// Build the same shape in different ways, on differently dirtied memory.
template<int N> static Dim<N> build(Src& s, const int* v) {
    switch (s.draw(6)) {
        case 0: return mk<N>(v);
        case 1: { Dim<N> a = mk<N>(v); Dim<N> b(a); return b; }
        case 2: { Dim<N> a = mk<N>(v); Dim<N> b(std::move(a)); return b; }
        case 3: { Dim<N> a(s.range(0, 9)); Dim<N> b = mk<N>(v); a = b; return a; }
        case 4: { Dim<N> a(s.range(0, 9)); Dim<N> b = mk<N>(v); a = std::move(b); return a; }
        case 5: { Dim<N> a(s.range(0, 9)); a.x = v[0]; a.y = v[1]; if (N == 3) a.z = v[2]; return a; }
        default: { Dim<N> a(s.range(0, 9)); for (int i = 0; i < N; i++) a.data[i] = v[i]; return a; }
    }
}
template<int N> static bool is(const Dim<N>& d, const int* v) { for (int i = 0; i < N; i++) if (d.data[i] != v[i]) return false; return d.x == v[0] && d.y == v[1] && (N < 3 || d.z == v[2]); }
template<int N> static std::string str(const int* v) { std::ostringstream o; o << "("; for (int i = 0; i < N; i++) o << (i ? ", " : "") << v[i]; o << ")"; return o.str(); }

template<int N> static void algebra(Ctx& c) {
    Src& s = c.s; int a[3], b[3], t[3];
    int hi = s.chance(1, 4) ? 100000 : 12;
    for (int i = 0; i < 3; i++) { a[i] = s.range(0, hi) - (s.chance(1, 6) ? hi / 2 : 0); }
    int mode = s.range(0, 2);
    for (int i = 0; i < 3; i++) b[i] = mode == 0 ? a[i] : s.range(0, hi);
    if (mode == 1) { for (int i = 0; i < 3; i++) b[i] = a[i]; b[s.range(0, N - 1)] += s.range(1, 3); }
    bool eq = true; for (int i = 0; i < N; i++) eq = eq && a[i] == b[i];
    c.nontrivial = !eq; c.label(eq ? "equal" : "different");
    c.log(N, " components ", str<N>(a), " and ", str<N>(b));
    Dim<N> A = build<N>(s, a), B = build<N>(s, b);
    REQUIRE(is(A, a) && is(B, b), "construction of ", str<N>(a), " / ", str<N>(b), " gave ", A, " / ", B);
    REQUIRE((A == B) == eq && (A != B) == !eq && (B == A) == eq, "comparison of ", str<N>(a), " and ", str<N>(b));
    REQUIRE(A == A && !(A != A), "self comparison");
    for (int i = 0; i < N; i++) t[i] = a[i] + b[i]; REQUIRE(is<N>(A + B, t), str<N>(a), "+", str<N>(b), " = ", A + B);
    for (int i = 0; i < N; i++) t[i] = a[i] - b[i]; REQUIRE(is<N>(A - B, t), str<N>(a), "-", str<N>(b), " = ", A - B);
    Dim<N> sum = A + B; REQUIRE(sum - B == A && (sum - A) == B, "add then subtract");
    REQUIRE(is(A, a) && is(B, b), "operands changed");
    std::ostringstream o; o << A; REQUIRE(o.str() == str<N>(a), "printed ", o.str());
    bool nonneg = true; size_t sz = 1; for (int i = 0; i < N; i++) { nonneg = nonneg && a[i] >= 0; sz *= (size_t)a[i]; }
    if (nonneg) REQUIRE(A.size() == sz, "size of ", str<N>(a), " is ", A.size());
    int fill = s.range(0, 20); Dim<N> F(fill); for (int i = 0; i < N; i++) REQUIRE(F.data[i] == fill, "filled shape"); int ff[3] = {fill, fill, fill}; Dim<N> G = build<N>(s, ff); REQUIRE(F == G, "filled shape equals component-wise built one");
    Dim<N> Z; for (int i = 0; i < N; i++) REQUIRE(Z.data[i] == 0, "default shape is zero");
    Dim<N> M = build<N>(s, a); Dim<N> M2(std::move(M)); REQUIRE(is(M2, a), "moved value");
}

template<int N> static void stepping(Ctx& c) {
    Src& s = c.s; int a[3] = {1, 1, 1};
    for (int i = 0; i < N; i++) a[i] = s.chance(1, 8) ? s.range(1, 60) : s.range(1, 6);
    size_t total = 1; for (int i = 0; i < N; i++) total *= a[i];
    c.nontrivial = total > 1; c.log("stepping through ", str<N>(a));
    Dim<N> D = build<N>(s, a);
    DimIterator<N> it(D, Dim<N>(0));
    bool post = s.boolean();
    for (size_t k = 0; k < total; k++) {
        int p[3]; size_t q = k; for (int i = 0; i < N; i++) { p[i] = (int)(q % a[i]); q /= a[i]; }
        if (!is<N>(it.idx, p)) pbt::fail("step ", k, " through ", str<N>(a), " is at ", it.idx, " expected ", str<N>(p));
        if (D.getFlatIdx(it.idx) != k) pbt::fail("flat position of ", str<N>(p), " in ", str<N>(a), " is ", D.getFlatIdx(it.idx));
        DimIterator<N> o(D, mk<N>(p)); if (!(it == o)) pbt::fail("iterator not equal to one built at ", str<N>(p));
        if (post) { DimIterator<N> old = it++; if (!is<N>(old.idx, p)) pbt::fail("post-increment value"); } else ++it;
        if (it == o) pbt::fail("stepping from ", str<N>(p), " did not move");
    }
    int e[3] = {0, 0, 0}; e[N - 1] = a[N - 1];
    REQUIRE(is<N>(it.idx, e), "one past the end of ", str<N>(a), " is ", it.idx);
}
// positions in shapes too large to be listed
template<int N> static void flat(Ctx& c) {
    Src& s = c.s; int a[3] = {1, 1, 1}, p[3] = {0, 0, 0}; size_t want = 0, prod = 1; const size_t lim = (size_t)1 << 62;
    for (int i = 0; i < N; i++) { int hi = s.pick({3, 100, 65536, 100000, 2147483647}); a[i] = s.boolean() ? hi : s.range(1, hi); p[i] = s.boolean() ? a[i] - 1 : s.range(0, a[i] - 1); if ((size_t)a[i] > lim / prod) { a[i] = 1; p[i] = 0; } want += (size_t)p[i] * prod; prod *= (size_t)a[i]; }
    c.log("position ", str<N>(p), " in ", str<N>(a)); c.nontrivial = want > 0; c.label(prod > 1ull << 31 ? "beyond 31 bits" : "within 31 bits"); Dim<N> D = build<N>(s, a), P = build<N>(s, p);
    REQUIRE(D.size() == prod, "size of ", str<N>(a), " is ", D.size(), " instead of ", prod); REQUIRE(D.getFlatIdx(P) == want, "flat position of ", str<N>(p), " in ", str<N>(a), " is ", D.getFlatIdx(P), " instead of ", want);
}
PROP(flat2, 1) { flat<2>(c); }
PROP(flat3, 1) { flat<3>(c); }
PROP(algebra2, 2) { algebra<2>(c); }
PROP(algebra3, 2) { algebra<3>(c); }
PROP(stepping2, 1) { stepping<2>(c); }
PROP(stepping3, 1) { stepping<3>(c); }
