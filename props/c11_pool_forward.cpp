#include "nnref.h"
using namespace my_cnn;
struct PC { int wx, wy, sx, sy, pk; };
static PC genPC(Src& s) { PC p; bool big = s.chance(1, 20); p.wx = s.range(1, big ? 20 : 5); p.wy = s.range(1, big ? 20 : 5); p.sx = s.range(1, big ? 24 : 6); p.sy = s.range(1, big ? 24 : 6); if (s.chance(1, 4)) { p.wy = p.wx; p.sx = p.wx; p.sy = p.wx; } p.pk = s.range(0, 2); return p; }
static RD genInput(Src& s, D3 d) {
    switch (s.weighted({3, 2, 1, 1, 1, 1})) { case 5: { RD r = genRef<double>(s, d, Vc::Wide); for (auto& v : r.v) v = std::fabs(v) > 1e290 ? v / 1e10 : v; return r; } case 0: return genRef<double>(s, d, Vc::Ints); case 1: return genDistinct<double>(s, d); case 2: return genRef<double>(s, d, Vc::Reals);
        case 3: { RD r = genRef<double>(s, d, Vc::Reals); for (auto& v : r.v) v = -std::fabs(v) - 1; return r; } default: { RD r = genRef<double>(s, d, Vc::Reals); for (auto& v : r.v) v = std::fabs(v) + 1; return r; } }
}
PROP(forward, 5) {
    Src& s = c.s; PC p = genPC(s); Pooling P(dim2(p.wx, p.wy), dim2(p.sx, p.sy), (PoolingType)p.pk); int slots = s.chance(1, 20) ? s.range(1, 100) : s.range(1, 4); bool sized = slots > 1 || s.boolean(); if (sized) P.setBatchSize((size_t)slots); REQUIRE(P.getType() == POOLING);
    int calls = s.range(1, 4); c.log("pool ", p.wx, "x", p.wy, " stride ", p.sx, ",", p.sy, " kind ", p.pk);
    for (int q = 0; q < calls; q++) {
        D3 d{p.wx + s.range(0, 9), p.wy + s.range(0, 9), s.chance(1, 30) ? s.range(1, 40) : s.range(1, 4)}; if (s.chance(1, 20)) (s.boolean() ? d.x : d.y) += s.range(10, 60); RD in = genInput(s, d); c.log(" in ", in); SimpleMatrix<double> I = build(in, 0);
        RD want = refPool(in, p.wx, p.wy, p.sx, p.sy, p.pk); REQUIRE(P.checkSize(I), "valid input refused"); REQUIRE(fromDim(P.outputSize(I.dim())) == want.d, "predicted ", fromDim(P.outputSize(I.dim())), " expected ", want.d);
        size_t slot = (size_t)s.range(0, slots - 1); SimpleMatrix<double> out = P.propagateForward(std::move(I), slot);
        if (p.pk == AVG) { double m = 0; for (auto v : in.v) m = std::max(m, std::fabs(v)); expectNear(out, want, m * 1e-13, "average pooling"); } else expectEq(out, want, p.pk == MAX ? "max pooling" : "min pooling");
        c.label(p.pk == MAX ? "max" : p.pk == MIN ? "min" : "avg"); c.label(p.sx < p.wx || p.sy < p.wy ? "overlapping" : p.sx > p.wx || p.sy > p.wy ? "gaps" : "tiling"); if (p.wx != p.wy || p.sx != p.sy) c.label("anisotropic"); if ((d.x - p.wx) % p.sx || (d.y - p.wy) % p.sy) c.label("partial coverage");
        c.nontrivial |= want.d.size() > 1 && p.wx * p.wy > 1;
    }
}
PROP(refusal, 1) {
    Src& s = c.s; PC p = genPC(s); if (p.wx == 1 && p.wy == 1) p.wx = 2; D3 d{p.wx + s.range(0, 3), p.wy + s.range(0, 3), s.range(1, 3)}; bool inx = p.wy == 1 || (p.wx > 1 && s.boolean()); if (inx) d.x = s.range(1, p.wx - 1); else d.y = s.range(1, p.wy - 1);
    c.log("pool ", p.wx, "x", p.wy, " stride ", p.sx, ",", p.sy, " kind ", p.pk, " in ", d); c.label("refused"); c.nontrivial = true; Pooling P(dim2(p.wx, p.wy), dim2(p.sx, p.sy), (PoolingType)p.pk); SimpleMatrix<double> I(d.d(), 1.0);
    REQUIRE(!P.checkSize(I), "too small an input accepted by the size check"); REQUIRE(pbt::throwsAny([&] { P.propagateForward(std::move(I)); }), "input ", d, " accepted for window ", p.wx, "x", p.wy);
    D3 ok{p.wx + 1, p.wy + 1, 2}; RD in = genInput(s, ok); RD want = refPool(in, p.wx, p.wy, p.sx, p.sy, p.pk); expectNear(P.propagateForward(build(in, 0)), want, 1e-9, "output after a refusal");
}
// the number of positions for inputs of any size, up to the largest
PROP(positions, 1) {
    Src& s = c.s; auto big = [&](int lo) { switch (s.draw(3)) { case 0: return s.range(lo, lo > 0x7FFFFF00 ? 0x7FFFFFFF : lo + 50); case 1: return s.range(lo, std::max(lo, 1 << 20)); case 2: return std::max(lo, (1 << s.range(20, 30)) + s.range(-40, 40)); default: return s.range(lo, 0x7FFFFFFF); } };
    int wx = s.boolean() ? s.range(1, 6) : big(1), wy = s.boolean() ? s.range(1, 6) : big(1), sx = s.boolean() ? s.range(1, 6) : big(1), sy = s.boolean() ? s.range(1, 6) : big(1), ix = big(wx), iy = big(wy), z = s.range(1, 5);
    c.log("in (", ix, ",", iy, ",", z, ") window ", wx, "x", wy, " stride ", sx, ",", sy); c.nontrivial = ix > wx || iy > wy; if (std::max(ix, iy) > 1 << 24) c.label("axis > 2^24");
    Pooling P(dim2(wx, wy), dim2(sx, sy), (PoolingType)s.range(0, 2)); D3 got = fromDim(P.outputSize(dim3(ix, iy, z))), want{(ix - wx) / sx + 1, (iy - wy) / sy + 1, z}; REQUIRE(got == want, "predicted ", got, " expected ", want);
    #if !defined(__SANITIZE_ADDRESS__) && !defined(PBT_LIBFUZZER)
    if (pbt::g_tier && s.chance(1, 20000)) { // one very long input
        c.label("very long input"); D3 d{(1 << 24) + s.range(1, 5), 1, 1}; if (s.boolean()) std::swap(d.x, d.y); RD in(d); Bulk b(s.draw(1000)); for (auto& v : in.v) v = (double)b.below(1000); int k = s.range(0, 2), w = s.range(1, 2), st = s.range(1, 2), a = d.x > 1; Pooling Q(a ? dim2(w, 1) : dim2(1, w), a ? dim2(st, 1) : dim2(1, st), (PoolingType)k);
        expectNear(Q.propagateForward(build(in, 0)), refPool(in, a ? w : 1, a ? 1 : w, a ? st : 1, a ? 1 : st, k), 1e-9, "pooling of a very long input"); }
#endif
}
