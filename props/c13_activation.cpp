#include "nnref.h"
using namespace my_cnn;
static double genReal(Src& s) {
    switch (s.weighted({4, 3, 2, 2, 2})) {
        case 0: return genVal<double>(s, Vc::Reals);
        case 1: return genVal<double>(s, Vc::Ints);
        case 2: { double m = 1 + (double)s.draw(1023) / 1024; int e = s.range(0, 2045); double v = std::ldexp(m, e - 1022); return s.boolean() ? -v : v; }
        case 3: { static const double sp[] = {0.0, -0.0, 1e-308, -1e-308, 4.9e-324, -4.9e-324, 1.7e308, -1.7e308, 709, -709, 710, -710, 745, -745, 746, -746, 88, -88, 104, -104, 18.5, -18.5, 36.7, -36.7, 1e16, -1e16, 20, -20, 0.5, -0.5}; return s.pick(sp); }
        default: return (double)s.range(-800, 800) + (double)s.draw(99) / 100;
    }
}
PROP(function_and_derivative, 8) {
    Src& s = c.s; int f = s.range(0, 4); Activation A((ModelActivationFunction)f); D3 d = genDimOrEmpty(s, s.chance(1, 8) ? Sz::Normal : Sz::Tiny); RD X(d), g(d);
    if (d.size() <= 40) for (auto& v : X.v) v = genReal(s); else { std::vector<double> pool(12); for (auto& v : pool) v = genReal(s); Bulk b(s.draw(0xFFFF)); for (auto& v : X.v) v = pool[b.below(12)] * (b.below(2) ? 1 : 0.75); }
    g = genRef<double>(s, d, s.boolean() ? Vc::Ints : Vc::Reals); c.log(my_cnn::toString((ModelActivationFunction)f), " of ", X, " grad ", g); c.label(my_cnn::toString((ModelActivationFunction)f)); c.nontrivial = d.size() > 1; REQUIRE(A.getType() == ACTIVATION);
    SimpleMatrix<double> Y = A.propagateForward(build(X, 0), (size_t)s.range(0, 3)); RD want(d); for (size_t i = 0; i < X.v.size(); i++) want.v[i] = refAct(f, X.v[i]);
    expectNear(Y, want, [&](int x, int y, int z) { double w = std::fabs(want.at(x, y, z)); return (f == RELU || f == LINEAR) ? 0.0 : f == LEAKY_RELU ? w * 1e-6 : w * 1e-9 + 1e-15; }, "activation");
    X.each([&](int x, int y, int z) { double v = Y(x, y, z); REQUIRE(std::isfinite(v), "activation of ", X.at(x, y, z), " is ", v); if (f == SIGMOID) REQUIRE(v >= 0 && v <= 1); if (f == TANGENT) REQUIRE(v >= -1 && v <= 1); if (f == RELU) REQUIRE(v >= 0); });
    std::vector<std::pair<double, double>> xy; X.each([&](int x, int y, int z) { xy.push_back({X.at(x, y, z), Y(x, y, z)}); }); std::sort(xy.begin(), xy.end()); for (size_t i = 1; i < xy.size(); i++) REQUIRE(xy[i].second >= xy[i - 1].second || xy[i].second >= xy[i - 1].second - 2e-16, "not monotone between ", xy[i - 1].first, " and ", xy[i].first);
    const SimpleMatrix<double> mX = build(X, 0), mg = build(g, 0); auto gr = A.activationGradient(mX); SimpleMatrix<double> r = A.propagateBackward(mX, Y, mg, 0, s.boolean()); expectEq(mX, X, "input after backward"); expectEq(mg, g, "gradient after backward"); REQUIRE(fromDim(r.dim()) == d); REQUIRE(fromDim(gr.dim()) == d);
    X.each([&](int x, int y, int z) {
        double xv = X.at(x, y, z), gv = g.at(x, y, z), lo, hi; lo = hi = refActGrad(f, xv); if (xv == 0 && (f == RELU || f == LEAKY_RELU)) { lo = f == RELU ? 0 : 0.1; hi = 1; }     // any one-sided derivative at the kink
        double tol = f == LEAKY_RELU ? 1e-6 : (f == RELU || f == LINEAR) ? 0 : 1e-9 * hi + 1e-15; double got = gr(x, y, z), b = r(x, y, z); REQUIRE(got >= lo - tol && got <= hi + tol, "derivative at ", xv, " is ", got, " expected ", hi);
        double a1 = gv * (lo - tol), a2 = gv * (hi + tol); if (a1 > a2) std::swap(a1, a2); REQUIRE(b >= a1 && b <= a2, "gradient at ", xv, " for incoming ", gv, " is ", b, " expected ", gv * hi);
    });
}
PROP(names, 2) {
    Src& s = c.s; static const std::string names[] = {"RELU", "SIGMOID", "LINEAR", "TANGENT", "LEAKY_RELU"}; int f = s.range(0, 4); std::string n = names[f];
    REQUIRE(my_cnn::toString((ModelActivationFunction)f) == n); REQUIRE(my_cnn::fromString(n) == f);
    int how = s.range(0, 5); std::string bad = n;
    if (how == 0) bad += (char)s.range(32, 126); else if (how == 1) bad.erase(s.draw(bad.size() - 1), 1); else if (how == 2) { size_t i = s.draw(bad.size() - 1); bad[i] = (char)s.range(32, 126); } else if (how == 3) bad.insert(s.draw(bad.size()), 1, (char)s.range(32, 126)); else if (how == 4) { for (auto& ch : bad) ch = (char)std::tolower(ch); } else { bad.clear(); int len = s.range(0, 6); for (int i = 0; i < len; i++) bad += (char)s.range(32, 126); }
    c.log("name \"", bad, "\""); c.label("name"); c.nontrivial = true; bool known = false; for (auto& k : names) known |= k == bad;
    if (known) REQUIRE(my_cnn::toString(my_cnn::fromString(bad)) == bad); else REQUIRE(pbt::throwsAny([&] { my_cnn::fromString(bad); }), "unknown name \"", bad, "\" accepted");
    int code = s.range(5, 7); REQUIRE(pbt::throwsAny([&] { my_cnn::toString((ModelActivationFunction)code); }), "unknown enumerator ", code, " accepted");
}
