#include "common.h"
#include <climits>

static int coord(Src& s, int hi) {     // mostly near the range, sometimes far outside
    switch (s.weighted({12, 4, 2, 1, 1, 1})) { case 0: return s.range(0, hi); case 1: return s.range(-3, hi + 3); case 2: return -s.range(1, 3); case 3: return INT_MAX; case 4: return INT_MIN; default: return s.range(INT_MIN / 2, INT_MAX / 2); }
}
static bool inside(const D3& p, const D3& st, const D3& d) {
    auto ok = [](long long P, long long S, long long D) { return S >= 0 && D >= 0 && S + D <= P; };
    return ok(p.x, st.x, d.x) && ok(p.y, st.y, d.y) && ok(p.z, st.z, d.z);
}
static D3 pickStart(Src& s, const D3& p, D3& dim, bool allowEmpty) {
    D3 st; auto one = [&](int P, int& S, int& D) { D = s.range(allowEmpty ? 0 : 1, P); S = s.range(0, P - D); };
    one(p.x, st.x, dim.x); one(p.y, st.y, dim.y); one(p.z, st.z, dim.z); return st;
}
template<class T> static Ref<T> block(const Ref<T>& r, D3 st, D3 d) { Ref<T> b(d); b.each([&](int x, int y, int z) { b.at(x, y, z) = r.at(st.x + x, st.y + y, st.z + z); }); return b; }

template<class V, class T> static void readsLike(V& v, const Ref<T>& want, const char* what) {
    expectEq(v, want, what);
    if ((long)v.size() != want.d.size()) pbt::fail(what, ": size ", v.size());
    want.each([&](int x, int y, int z) {
        if (!same(v(x, y, z), want.at(x, y, z)) || !same(v.at(dim3(x, y, z)), want.at(x, y, z))) pbt::fail(what, ": accessors disagree at (", x, ",", y, ",", z, ")");
    });
    size_t k = 0;
    for (auto it = v.begin(); it != v.end(); ++it, ++k) {
        if (k >= want.v.size()) pbt::fail(what, ": iterates beyond its ", want.v.size(), " elements");
        int x, y, z; want.flatPos(k, x, y, z); dim3 p = it.idx();
        if (p.x != x || p.y != y || p.z != z) pbt::fail(what, ": iteration step ", k, " at ", fromDim(p));
        if (!same(*it, want.at(x, y, z))) pbt::fail(what, ": iteration step ", k, " yields ", +*it, " expected ", +want.at(x, y, z));
    }
    if (k != want.v.size()) pbt::fail(what, ": iterates ", k, " of ", want.v.size(), " elements");
    SimpleMatrix<T> copy(v); expectEq(copy, want, "copy of a view");
    SimpleMatrix<T> asg; asg = v; expectEq(asg, want, "assignment from a view");
}

template<class T> static void blocks(Ctx& c) {
    Src& s = c.s; D3 pd = genDimLarge(s, s.chance(1, 3) ? Sz::Normal : Sz::Tiny); Vc vc = (Vc)s.weighted({1, 1});
    Ref<T> r = genRef<T>(s, pd, vc); SimpleMatrix<T> m = build(r, 0); const SimpleMatrix<T>& cm = m;
    bool emp = s.chance(1, 10); D3 bd, bs = pickStart(s, pd, bd, emp);
    c.log("parent ", pd, " block at ", bs, " of ", bd);
    c.nontrivial = bd.size() > 0 && bd != pd; c.label(szLabel(bd));
    // depth of nesting
    SubMatrixView<T> v = m.subMatView(bs.d(), bd.d()); SubMatrixView<const T> cv = cm.subMatView(bs.d(), bd.d());
    int depth = s.range(0, 3);
    if (depth == 0 && s.boolean()) {       // whole slices of the matrix
        bs = D3{0, 0, s.range(0, pd.z - 1)}; bd = D3{pd.x, pd.y, s.range(1, pd.z - bs.z)};
        bool one = bd.z == 1 && s.boolean();
        SubMatrixView<T> v2 = one ? m.slice(bs.z) : m.slices(bs.z, bd.z); SubMatrixView<const T> cv2 = one ? cm.slice(bs.z) : cm.slices(bs.z, bd.z);
        Ref<T> want = block(r, bs, bd); readsLike(v2, want, "slice"); readsLike(cv2, want, "const slice"); expectEq(m.subMatCopy(bs.d(), bd.d()), want, "subMatCopy of a slice"); c.label("slice");
        if (want.v.size()) { int x = s.range(0, bd.x - 1), y = s.range(0, bd.y - 1), z = s.range(0, bd.z - 1); T nv = genVal<T>(s, vc); v2(x, y, z) = nv; r.at(bs.x + x, bs.y + y, bs.z + z) = nv; expectEq(m, r, "parent after writing a slice"); }
        return;
    }
    std::vector<SubMatrixView<T>> chain{v}; std::vector<SubMatrixView<const T>> cchain{cv};
    for (int i = 0; i < depth && bd.size(); i++) {
        D3 nd, ns = pickStart(s, bd, nd, emp);
        if (s.boolean()) { chain.push_back(SubMatrixView<T>(chain.back(), ns.d(), nd.d())); cchain.push_back(SubMatrixView<const T>(cchain.back(), ns.d(), nd.d())); }
        else { ns = D3{0, 0, ns.z}; nd = D3{bd.x, bd.y, nd.z}; if (nd.z == 1 && s.boolean()) { chain.push_back(chain.back().slice(ns.z)); cchain.push_back(cchain.back().slice(ns.z)); } else { chain.push_back(chain.back().slices(ns.z, nd.z)); cchain.push_back(cchain.back().slices(ns.z, nd.z)); } }
        bs = D3{bs.x + ns.x, bs.y + ns.y, bs.z + ns.z}; bd = nd; c.label("nested");
    }
    SubMatrixView<T> w = chain.back(); const SubMatrixView<T> wc = w; SubMatrixView<const T> cw = cchain.back();
    Ref<T> want = block(r, bs, bd);
    readsLike(w, want, "view"); readsLike(wc, want, "const view object"); readsLike(cw, want, "view of a const matrix");
    expectEq(m.subMatCopy(bs.d(), bd.d()), want, "subMatCopy"); expectEq(cm.subMatCopy(bs.d(), bd.d()), want, "const subMatCopy");
    // bounds-checked access
    for (int i = 0; i < 3; i++) {
        D3 p{coord(s, bd.x), coord(s, bd.y), coord(s, bd.z)}; bool ok = p.x >= 0 && p.y >= 0 && p.z >= 0 && p.x < bd.x && p.y < bd.y && p.z < bd.z;
        bool t1 = pbt::throws<std::out_of_range>([&] { (void)w.at(p.d()); }), t2 = pbt::throws<std::out_of_range>([&] { (void)wc.at(p.d()); }), t3 = pbt::throws<std::out_of_range>([&] { (void)cw.at(p.d()); });
        if (t1 == ok || t2 == ok || t3 == ok) pbt::fail("at", p, " of a view of ", bd, ok ? " refused" : " accepted");
    }
    // writes
    int steps = s.range(1, 4);
    for (int i = 0; i < steps; i++) {
        int op = s.range(0, 8); if (bd.size() == 0) op = 3 + op % 2;
        D3 p; if (bd.size()) p = D3{s.range(0, bd.x - 1), s.range(0, bd.y - 1), s.range(0, bd.z - 1)}; T nv = genVal<T>(s, vc);
        auto setOne = [&] { r.at(bs.x + p.x, bs.y + p.y, bs.z + p.z) = nv; };
        auto setAll = [&](const Ref<T>& q) { q.each([&](int x, int y, int z) { r.at(bs.x + x, bs.y + y, bs.z + z) = q.at(x, y, z); }); };
        switch (op) {
            case 0: w(p.x, p.y, p.z) = nv; setOne(); break;
            case 1: w(p.d()) = nv; setOne(); break;
            case 2: w.at(p.d()) = nv; setOne(); break;
            case 3: w = nv; setAll(Ref<T>(bd, nv)); break;
            case 4: { Ref<T> q = genRef<T>(s, bd, vc); SimpleMatrix<T> qm = build(q, 0); w = qm; setAll(q); break; }
            case 5: { size_t k = 0; Ref<T> q = genRef<T>(s, bd, vc); for (auto it = w.begin(); it != w.end(); ++it) *it = q.flat(k++); setAll(q); break; }
            case 6: { D3 od{bd.x + s.range(0, 2), bd.y + s.range(0, 2), bd.z + s.range(0, 1)}; Ref<T> q = genRef<T>(s, od, vc); SimpleMatrix<T> qm = build(q, 0); D3 os{od.x - bd.x, od.y - bd.y, od.z - bd.z};
                      if (s.boolean()) w = qm.subMatView(os.d(), bd.d()); else { const auto& cq = qm; w = cq.subMatView(os.d(), bd.d()); } setAll(block(q, os, bd)); expectEq(qm, q, "source matrix of a view assignment"); break; }
            case 8: { D3 os{s.range(0, pd.x - bd.x), s.range(0, pd.y - bd.y), s.range(0, pd.z - bd.z)}; Ref<T> q = block(r, os, bd); int how = s.range(0, 3);      // another block of the same parent, possibly overlapping
                      if (how == 0) w = m.subMatView(os.d(), bd.d()); else if (how == 1) { const auto o = m.subMatView(os.d(), bd.d()); w = o; } else if (how == 2) { auto o = m.subMatView(os.d(), bd.d()); w = o; } else w = cm.subMatView(os.d(), bd.d()); setAll(q); break; }
            default: { Ref<T> q = genRef<T>(s, bd, vc); SimpleMatrix<T> qm = build(q, 0); w = qm + T(1); for (auto& e : q.v) e = (T)(e + T(1)); setAll(q); }
        }
        c.label("write " + std::to_string(op));
        expectEq(m, r, "parent after writing through a view");
        expectEq(w, block(r, bs, bd), "view after writing through it");
        expectEq(cw, block(r, bs, bd), "const view after writing through another");
    }
    // wrong shape is refused without effect
    { D3 od = bd; int a = s.range(0, 2); (a == 0 ? od.x : a == 1 ? od.y : od.z) += s.range(1, 2); if (s.chance(1, 3)) { od = D3{bd.y, bd.x, bd.z}; }
      if (od != bd) { SimpleMatrix<T> q(od.d(), T(7)); bool lv = s.boolean(); SimpleMatrix<T> big({od.x + 1, od.y + 1, od.z + 1}, T(9));
        bool t = pbt::throws<MatrixSizeException>([&] { if (lv) w = q; else w = big.subMatView({1, 1, 1}, od.d()); });
        REQUIRE(t, "matrix of ", od, " assigned to a view of ", bd); expectEq(m, r, "parent after a refused assignment"); } }
    // writes to the parent are seen through the view
    if (bd.size()) { D3 p{s.range(0, bd.x - 1), s.range(0, bd.y - 1), s.range(0, bd.z - 1)}; T nv = genVal<T>(s, vc); m(bs.x + p.x, bs.y + p.y, bs.z + p.z) = nv; REQUIRE(same(w(p.d()), nv) && same(cw(p.d()), nv), "view does not see a write to its parent"); }
}

PROP(refusals, 2) {
    Src& s = c.s; D3 pd = genDim(s, Sz::Tiny); Ref<int> r = genDistinct<int>(s, pd); SimpleMatrix<int> m = build(r, 0); const auto& cm = m;
    D3 st{coord(s, pd.x), coord(s, pd.y), coord(s, pd.z)}, d{coord(s, pd.x + 1), coord(s, pd.y + 1), coord(s, pd.z + 1)};
    if (s.boolean()) { D3 q; st = pickStart(s, pd, q, true); d = q; int k = s.range(0, 5); int by = s.range(1, 4); int* a[6] = {&st.x, &st.y, &st.z, &d.x, &d.y, &d.z}; *a[k] += s.boolean() ? by : -by; }
    bool ok = inside(pd, st, d); c.label(ok ? "accepted" : "refused"); c.nontrivial = !ok;
    c.log("parent ", pd, " block ", st, " size ", d);
    auto want = [&](const char* what, bool threw, const D3& p) { if (threw == ok) pbt::fail(what, ": block at ", st, " of ", d, " in parent of ", p, ok ? " refused" : " accepted"); };
    want("subMatView", pbt::throws<MatrixSizeException>([&] { (void)m.subMatView(st.d(), d.d()); }), pd);
    want("const subMatView", pbt::throws<MatrixSizeException>([&] { (void)cm.subMatView(st.d(), d.d()); }), pd);
    want("subMatCopy", pbt::throws<MatrixSizeException>([&] { (void)m.subMatCopy(st.d(), d.d()); }), pd);
    expectEq(m, r, "parent after refusal");
    // nested: relative to the enclosing view, even where the parent would have room
    D3 big{pd.x + 4, pd.y + 4, pd.z + 4}; SimpleMatrix<int> bm(big.d(), 5); SubMatrixView<int> v = bm.subMatView({2, 2, 2}, pd.d()); const auto& cbm = bm; SubMatrixView<const int> cv = cbm.subMatView({2, 2, 2}, pd.d());
    want("nested view", pbt::throws<MatrixSizeException>([&] { SubMatrixView<int> n(v, st.d(), d.d()); }), pd);
    want("nested const view", pbt::throws<MatrixSizeException>([&] { SubMatrixView<const int> n(cv, st.d(), d.d()); }), pd);
    bool sok = inside(pd, D3{0, 0, st.z}, D3{pd.x, pd.y, d.z}); ok = sok;
    want("slices", pbt::throws<MatrixSizeException>([&] { (void)m.slices(st.z, d.z); }), pd);
    want("const slices", pbt::throws<MatrixSizeException>([&] { (void)cm.slices(st.z, d.z); }), pd);
    want("slices of view", pbt::throws<MatrixSizeException>([&] { (void)v.slices(st.z, d.z); }), pd);
    ok = st.z >= 0 && st.z < pd.z;
    want("slice", pbt::throws<MatrixSizeException>([&] { (void)m.slice(st.z); }), pd);
    want("slice of view", pbt::throws<MatrixSizeException>([&] { (void)cv.slice(st.z); }), pd);
}
PROP(blocks, 6) { switch (c.s.draw(3)) { case 0: blocks<double>(c); break; case 1: blocks<int>(c); break; case 2: blocks<unsigned char>(c); break; default: blocks<float>(c); } }
