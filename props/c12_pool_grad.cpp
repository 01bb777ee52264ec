#include "nnref.h"
using namespace my_cnn;
// Histories of forward and backward passes over batch slots.
PROP(history, 5) {
    Src& s = c.s; bool big = s.chance(1, 20); int wx = s.range(1, big ? 18 : 4), wy = s.range(1, big ? 18 : 4), sx = s.range(1, big ? 20 : 5), sy = s.range(1, big ? 20 : 5), pk = s.range(0, 2), slots = s.chance(1, 20) ? s.range(1, 100) : s.range(1, 4);
    Pooling P(dim2(wx, wy), dim2(sx, sy), (PoolingType)pk); if (slots > 1 || s.boolean()) P.setBatchSize((size_t)slots);
    std::vector<RD> last((size_t)slots); std::vector<bool> have((size_t)slots, false); int steps = s.range(2, 10), backs = 0, fwds = 0; c.log("pool ", wx, "x", wy, " stride ", sx, ",", sy, " kind ", pk);
    D3 base{wx + s.range(0, 6), wy + s.range(0, 6), s.chance(1, 30) ? s.range(1, 24) : s.range(1, 3)};
    for (int q = 0; q < steps; q++) {
        size_t slot = (size_t)s.range(0, slots - 1);
        if (!have[slot] || s.chance(2, 5)) {
            D3 d = s.chance(1, 2) ? base : D3{wx + s.range(0, 6), wy + s.range(0, 6), s.range(1, 3)};
            int how = (int)s.weighted({3, 2, 1}); RD in = how == 0 ? genDistinct<double>(s, d) : how == 1 ? genRef<double>(s, d, Vc::Ints) : RD(d, 2.5); if (s.chance(1, 4)) for (auto& v : in.v) v = -std::fabs(v) - 1;
            c.log("; forward[", slot, "] ", in); P.propagateForward(build(in, 0), slot); last[slot] = in; have[slot] = true; fwds++;
        } else {
            const RD& X = last[slot]; RD Y = refPool(X, wx, wy, sx, sy, pk); RD g(Y.d); long n = Y.d.size(); bool coded = n <= 48;
            if (coded) { std::vector<int> e((size_t)n); std::iota(e.begin(), e.end(), 0); for (size_t i = (size_t)n; i > 1; i--) std::swap(e[i - 1], e[i - 1 - s.draw(i - 1)]); for (long i = 0; i < n; i++) g.v[(size_t)i] = std::ldexp(1.0, e[(size_t)i]); } else g = genRef<double>(s, Y.d, Vc::Ints);
            c.log("; backward[", slot, "]"); const SimpleMatrix<double> mX = build(X, 0), mY = build(Y, 0), mg = build(g, 0); backs++;
            SimpleMatrix<double> r = s.boolean() ? P.propagateBackward(mX, mY, mg, slot, s.boolean()) : P.getdLdX(mX, mg, slot); expectEq(mX, X, "input"); expectEq(mg, g, "output gradient");
            if (r.size() == 0) continue;
            REQUIRE(fromDim(r.dim()) == X.d, "gradient shape ", fromDim(r.dim()));
            if (pk == AVG) { RD want(X.d); Y.each([&](int x, int y, int z) { for (int i = 0; i < wx; i++) for (int j = 0; j < wy; j++) want.at(x * sx + i, y * sy + j, z) += g.at(x, y, z) / (wx * wy); }); double m = 0; for (auto v : g.v) m += std::fabs(v); expectNear(r, want, [&](int x, int y, int z) { return 1e-12 * (std::fabs(want.at(x, y, z)) + (coded ? 0 : m)); }, "average pooling gradient"); c.label("avg"); }
            else {
                // which outputs may have sent their gradient to an element: those whose window contains it and has it as its extreme
                auto wins = [&](int ox, int oy, int z, int ix, int iy) { return ix >= ox * sx && ix < ox * sx + wx && iy >= oy * sy && iy < oy * sy + wy && X.at(ix, iy, z) == Y.at(ox, oy, z); };
                if (coded) {
                    // gradients are distinct powers of two, so every sum names the outputs it came from
                    std::vector<int> used((size_t)n, 0);
                    X.each([&](int ix, int iy, int z) {
                        double v = r(ix, iy, z); REQUIRE(v >= 0 && v == std::floor(v) && v < 0x1p49, "gradient at (", ix, ",", iy, ",", z, ") is ", v); uint64_t bits = (uint64_t)v;
                        Y.each([&](int ox, int oy, int oz) { double gv = g.at(ox, oy, oz); uint64_t b = (uint64_t)gv; if (!(bits & b)) return; bits &= ~b; REQUIRE(oz == z && wins(ox, oy, z, ix, iy), "output (", ox, ",", oy, ",", oz, ") sent its gradient to (", ix, ",", iy, ",", z, "), which is not an extreme of its window"); used[((size_t)oz * Y.d.x + ox) * Y.d.y + oy]++; });
                        REQUIRE(bits == 0, "gradient of no output at (", ix, ",", iy, ",", z, ")");
                    });
                    for (size_t i = 0; i < used.size(); i++) REQUIRE(used[i] == 1, "the gradient of output ", i, " arrived ", used[i], " times");
                    c.label("coded");
                } else {
                    bool ties = false; Y.each([&](int ox, int oy, int z) { int cnt = 0; for (int i = 0; i < wx; i++) for (int j = 0; j < wy; j++) cnt += X.at(ox * sx + i, oy * sy + j, z) == Y.at(ox, oy, z); ties |= cnt > 1; });
                    if (!ties) { RefLayer l; l.kind = L_POOL; l.wx = wx; l.wy = wy; l.sx = sx; l.sy = sy; l.pk = pk; RD a, b; expectEq(r, l.backward(X, X, g, a, b), "pooling gradient"); }
                    else { double t = 0, w = 0; X.each([&](int x, int y, int z) { t += r(x, y, z); if (r(x, y, z) != 0) { bool can = false; Y.each([&](int ox, int oy, int oz) { can |= oz == z && wins(ox, oy, z, x, y); }); REQUIRE(can, "gradient at an element that is no extreme"); } }); for (auto v : g.v) w += v; REQUIRE(t == w, "gradient sum ", t, " expected ", w); }
                    c.label("large");
                }
                c.label(pk == MAX ? "max" : "min"); if (sx < wx || sy < wy) c.label("overlapping");
            }
            c.nontrivial |= Y.d.size() > 1 && wx * wy > 1 && fwds > 1;
        }
    }
    if (backs > 1 && slots > 1) c.label("several slots");
}
