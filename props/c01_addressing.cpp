#include "common.h"

template<class T> static void addressing(Ctx& c) {
    Src& s = c.s;
    D3 d = genDimOrEmpty(s, Sz::Big);
    Vc vc = genVc(s);
    Ref<T> r = genRef<T>(s, d, vc);
    int how = (int)s.draw(6);
    c.label(szLabel(d)); c.label("write path " + std::to_string(how));
    c.log("shape ", d, " write path ", how, " values ", r);
    c.nontrivial = d.size() == 0 || ((d.x > 1) + (d.y > 1) + (d.z > 1) >= 2);
    SimpleMatrix<T> m = build(r, how);
    const SimpleMatrix<T>& cm = m;

    REQUIRE((long)m.size() == d.size(), "size() ", m.size(), " for shape ", d);
    REQUIRE(fromDim(m.dim()) == d && fromDim(m.dims()) == d && (int)m.dim(0) == d.x && (int)m.dim(1) == d.y && (int)m.dim(2) == d.z, "dim() of ", d);
    REQUIRE(m.isSquare() == (d.x == d.y) && m.isFlat() == (d.z == 1) && m.isRow() == (d.x == 1 && d.z == 1) && m.isColumn() == (d.y == 1 && d.z == 1), "shape predicates of ", d);

    // all read paths, const and not
    r.each([&](int x, int y, int z) {
        T want = r.at(x, y, z); size_t flat = ((size_t)z * d.y + y) * d.x + x;
        bool ok = same(m(x, y, z), want) && same(cm(x, y, z), want) && same(m(dim3(x, y, z)), want) && same(cm(dim3(x, y, z)), want) && same(m[flat], want) && same(cm[flat], want);
        if (z == 0) ok = ok && same(m(x, y), want) && same(cm(x, y), want);
        if (!ok) pbt::fail("element (", x, ",", y, ",", z, ") of ", d, " (written by path ", how, ") reads differently: ", +m(x, y, z), " ", +cm(x, y, z), " ", +m(dim3(x, y, z)), " ", +m[flat], " expected ", +want);
        if (m.getIndex(x, y, z) != flat || m.getIndex(dim3(x, y, z)) != flat) pbt::fail("flat index of (", x, ",", y, ",", z, ") in ", d, " is ", m.getIndex(x, y, z), " expected ", flat);
    });

    // iteration: every element once, in storage order, with its position
    auto iterate = [&](auto& mm, bool pre, const char* what) {
        size_t k = 0;
        for (auto it = mm.begin(); it != mm.end();) {
            if (k >= r.v.size()) pbt::fail(what, " iteration of ", d, " visits more than ", r.v.size(), " elements");
            dim3 p = it.idx(); int x, y, z; r.flatPos(k, x, y, z);
            if (p.x != x || p.y != y || p.z != z) pbt::fail(what, " iteration of ", d, " step ", k, " reports position ", fromDim(p));
            if (!same(*it, r.at(x, y, z))) pbt::fail(what, " iteration of ", d, " step ", k, " yields ", +*it, " expected ", +r.at(x, y, z));
            if ((size_t)(it - mm.begin()) != k) pbt::fail(what, " iterator distance at step ", k, " is ", it - mm.begin());
            k++;
            if (pre) ++it; else { auto old = it++; if (!(old.idx() == p)) pbt::fail("post-increment returns wrong position"); }
        }
        if (k != r.v.size()) pbt::fail(what, " iteration of ", d, " visits ", k, " of ", r.v.size(), " elements");
        if ((size_t)(mm.end() - mm.begin()) != r.v.size()) pbt::fail(what, " end-begin of ", d, " is ", mm.end() - mm.begin());
    };
    iterate(m, s.boolean(), "mutable"); iterate(cm, s.boolean(), "const");
    { size_t k = 0; for (const T& v : cm) { REQUIRE(k < r.v.size() && same(v, r.flat(k)), "range-for element ", k); k++; } REQUIRE(k == r.v.size(), "range-for count"); }

    // write a single element through a random path: only that element changes
    if (d.size()) {
        int x = s.range(0, d.x - 1), y = s.range(0, d.y - 1), z = s.range(0, d.z - 1), p = s.range(0, 3); T v = genVal<T>(s, vc);
        size_t flat = ((size_t)z * d.y + y) * d.x + x;
        if (p == 0) m(x, y, z) = v; else if (p == 1) m(dim3(x, y, z)) = v; else if (p == 2) m[flat] = v;
        else { auto it = m.begin(); for (size_t i = 0; i < flat; i++) ++it; *it = v; }
        r.at(x, y, z) = v;
        expectEq(m, r, "after writing one element");
    }
}

template<class T> static void lists(Ctx& c) {
    Src& s = c.s;
    D3 d = genDimOrEmpty(s); Vc vc = genVc(s);
    Ref<T> old = genRef<T>(s, d, vc), r = genRef<T>(s, d, vc);
    SimpleMatrix<T> m = build(old, 0);
    bool rowmajor = s.boolean(), ctor = s.chance(1, 3);
    c.log("shape ", d, rowmajor ? " entry list" : " raw vector", " values ", r);
    c.nontrivial = d.x > 1 && d.y > 1;
    std::vector<T> list(r.v.size());
    if (rowmajor) { size_t k = 0; for (int z = 0; z < d.z; z++) for (int x = 0; x < d.x; x++) for (int y = 0; y < d.y; y++) list[k++] = r.at(x, y, z); }
    else for (size_t k = 0; k < list.size(); k++) list[k] = r.flat(k);
    // wrong lengths are refused without effect
    size_t wrong = s.draw(2) == 0 ? (s.boolean() ? list.size() + 1 : (list.empty() ? 1 : list.size() - 1)) : s.draw(list.size() * 2 + 2);
    if (wrong != list.size()) {
        c.label("wrong length refused");
        bool t = pbt::throws<MatrixSizeException>([&] { std::vector<T> w(wrong, T(3)); if (rowmajor) m.setEntries(std::move(w)); else m = std::move(w); });
        REQUIRE(t, "list of ", wrong, " accepted for shape ", d);
        expectEq(m, old, "after a refused list");
        bool t2 = pbt::throws<MatrixSizeException>([&] { SimpleMatrix<T> q(d.d(), std::vector<T>(wrong, T(3))); });
        REQUIRE(t2, "constructor accepted list of ", wrong, " for shape ", d);
    }
    if (rowmajor && ctor) { SimpleMatrix<T> q(d.d(), std::vector<T>(list)); expectEq(q, r, "constructed from entries"); }
    if (rowmajor) m.setEntries(std::vector<T>(list)); else m = std::vector<T>(list);
    expectEq(m, r, rowmajor ? "entry list" : "raw vector");
    T fill = genVal<T>(s, vc);
    SimpleMatrix<T> f(d.d(), fill), zero(d.d());
    expectEq(f, Ref<T>(d, fill), "filled constructor"); expectEq(zero, Ref<T>(d, T{}), "default-filled constructor");
}

#define TYPED(fn) { switch (c.s.draw(5)) { case 0: fn<double>(c); break; case 1: fn<int>(c); break; case 2: fn<float>(c); break; case 3: fn<unsigned char>(c); break; case 4: fn<unsigned>(c); break; default: fn<long>(c); } }
PROP(addressing, 9) TYPED(addressing)
PROP(lists, 6) TYPED(lists)
#if !defined(__SANITIZE_ADDRESS__) && !defined(PBT_LIBFUZZER)
// a matrix of more elements than a 32-bit integer can count
PROP(giant, 1) {
    Src& s = c.s; bool giant = s.chance(1, 2000); D3 d = giant ? D3{s.range(40000, 50000), s.range(54000, 60000), 1} : D3{s.range(1, 60), s.range(1, 60), s.range(1, 4)}; if (giant) { c.label("more than 2^31 elements"); switch (s.draw(2)) { case 0: break; case 1: std::swap(d.x, d.y); break; default: std::swap(d.y, d.z); } }
    c.log("shape ", d); c.nontrivial = d.x > 1 || d.y > 1; SimpleMatrix<unsigned char> m; try { m.resize(d.d()); m = SimpleMatrix<unsigned char>(); } catch (const std::bad_alloc&) { throw pbt::Discard{}; } if (s.boolean()) m = SimpleMatrix<unsigned char>(d.d()); else if (s.boolean()) m.resize(d.x, d.y, d.z); else m.resize(d.d()); const auto& cm = m;
    size_t n = (size_t)d.x * (size_t)d.y * (size_t)d.z; REQUIRE(m.size() == n, "size() of ", d, " is ", m.size()); REQUIRE(m.end() - m.begin() == (std::ptrdiff_t)n && cm.end() - cm.begin() == (std::ptrdiff_t)n, "end - begin of ", d, " is ", m.end() - m.begin());
    for (int k = 0; k < 6; k++) { int x = s.range(0, d.x - 1), y = s.range(0, d.y - 1), z = s.range(0, d.z - 1); if (k == 0) x = d.x - 1, y = d.y - 1, z = d.z - 1; size_t f = ((size_t)z * (size_t)d.y + (size_t)y) * (size_t)d.x + (size_t)x;
        REQUIRE(m.getIndex(x, y, z) == f && m.getIndex(dim3(x, y, z)) == f, "flat index"); unsigned char v = (unsigned char)(k + 1); if (k & 1) m(x, y, z) = v; else m(dim3(x, y, z)) = v; REQUIRE(m[f] == v && cm[f] == v && cm(x, y, z) == v && cm(dim3(x, y, z)) == v, "element (", x, ",", y, ",", z, ") of ", d); m[f] = 0; REQUIRE(m(x, y, z) == 0, "flat write"); }
    SimpleMatrix<unsigned char> moved(std::move(m)); REQUIRE(moved.size() == n && m.size() == 0, "moved"); moved.reshape(d.y, d.z, d.x); REQUIRE(moved.size() == n && fromDim(moved.dim()) == (D3{d.y, d.z, d.x}), "reshaped");
}
#endif
