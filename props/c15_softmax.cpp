#include "nnref.h"
using namespace my_cnn;
static RD genScores(Src& s, D3 d, int& how) {
    RD r(d); how = (int)s.weighted({3, 3, 2, 2, 2});
    for (auto& v : r.v) switch (how) {
        case 0: v = genVal<double>(s, Vc::Ints); break;
        case 1: v = genVal<double>(s, Vc::Reals); break;
        case 2: v = (double)s.range(-800, 800); break;
        case 3: { static const double sp[] = {0.0, 1e300, -1e300, 1e308, -1e308, 1e-300, 710, -710, 745, -745, 1e16, -1e16}; v = s.pick(sp); break; }
        default: v = genVal<double>(s, Vc::Reals) * std::ldexp(1.0, s.range(0, 990)); }
    return r;
}
PROP(distribution, 6) {
    Src& s = c.s; int n = s.chance(1, 10) ? s.range(1, s.chance(1, 6) ? 400 : 60) : s.range(1, 8); bool row = s.boolean(); D3 d = row ? D3{1, n, 1} : D3{n, 1, 1}; int how; RD X = genScores(s, d, how); Softmax S((size_t)n); REQUIRE(S.getType() == OUTPUT);
    c.log(row ? "row " : "column ", X); c.label(row ? "row" : "column"); c.label("scores " + std::to_string(how)); c.nontrivial = n > 1; SimpleMatrix<double> I = build(X, 0); REQUIRE(S.checkSize(I));
    SimpleMatrix<double> Y = S.propagateForward(std::move(I), (size_t)s.range(0, 2)); RD want = refSoftmax(X); REQUIRE(fromDim(Y.dim()) == d, "shape ", fromDim(Y.dim()));
    double t = 0; for (int i = 0; i < n; i++) { double v = Y[(size_t)i]; REQUIRE(std::isfinite(v) && v >= 0 && v <= 1, "probability ", i, " is ", v); t += v; } REQUIRE(std::fabs(t - 1) < 1e-9, "sum ", t);
    expectNear(Y, want, [&](int x, int y, int z) { return want.at(x, y, z) * 1e-9 + 1e-300; }, "softmax");
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (X.flat((size_t)i) < X.flat((size_t)j)) REQUIRE(Y[(size_t)i] <= Y[(size_t)j], "order of scores ", i, " and ", j, " reversed"); else if (X.flat((size_t)i) == X.flat((size_t)j)) REQUIRE(Y[(size_t)i] == Y[(size_t)j], "equal scores, different probabilities");
    // adding a constant to all scores
    if (how <= 2) { double k = s.boolean() ? (double)s.range(-100000, 100000) : std::ldexp(1.0, s.range(0, 30)); RD X2 = X; for (auto& v : X2.v) v += k; expectNear(S.propagateForward(build(X2, 0), 0), want, [&](int x, int y, int z) { return want.at(x, y, z) * 1e-9 * (1 + std::fabs(k)) + 1e-300; }, "softmax of shifted scores"); }
    expectEq(S.softMax(build(X, 0)), toRef(Y), "softMax and the forward pass");
    // gradient
    int lab = s.range(0, n - 1); RD g = toRef(Y); g.flat((size_t)lab) -= 1; expectNear(S.getdLdX(Y, (size_t)lab), g, 1e-12, "gradient");
    const SimpleMatrix<double> mX = build(X, 0), dummy; Softmax fresh((size_t)n); REQUIRE(pbt::throwsAny([&] { fresh.propagateBackward(mX, Y, dummy, 0, false); }), "gradient without a true label");
    int times = s.range(1, 3); for (int q = 0; q < times; q++) { lab = s.range(0, n - 1); fresh.assignTrueLabel((size_t)lab); g = toRef(Y); g.flat((size_t)lab) -= 1;
        if (s.chance(1, 4)) { size_t bad = (size_t)n + s.draw(3); REQUIRE(pbt::throwsAny([&] { fresh.assignTrueLabel(bad); }), "label ", bad, " of ", n, " accepted"); }
        if (s.boolean()) { RD Z(d); fresh.propagateForward(build(Z, 0), 0); }
        expectNear(fresh.propagateBackward(mX, Y, dummy, 0, s.boolean()), g, 1e-12, "backward pass"); c.label("gradient");
        int other = s.range(0, n - 1); RD g2 = toRef(Y); g2.flat((size_t)other) -= 1; expectNear(fresh.getdLdX(Y, (size_t)other), g2, 1e-12, "gradient for another label than the assigned one"); if (s.boolean()) expectNear(fresh.propagateBackward(mX, Y, dummy, 0, false), g, 1e-12, "backward pass after asking for another label"); }
}
PROP(refusal, 2) {
    Src& s = c.s; int n = s.range(1, 6); Softmax S((size_t)n); D3 d; int how = s.range(0, 3); if (how == 0) d = D3{n + s.range(1, 3), 1, 1}; else if (how == 1) d = D3{1, n + s.range(1, 3), 1}; else if (how == 2) d = D3{s.range(2, 3), s.range(2, 3), 1}; else d = D3{n, 1, s.range(2, 3)};
    if (s.chance(1, 4) && n > 1) d = D3{n - 1, 1, 1}; c.log("labels ", n, " input ", d); c.label("refused"); c.nontrivial = true; SimpleMatrix<double> I(d.d(), 0.5); REQUIRE(!S.checkSize(I), "size check accepts ", d, " for ", n); REQUIRE(pbt::throwsAny([&] { S.propagateForward(std::move(I), 0); }), "input ", d, " accepted for ", n, " labels");
    uint64_t bad = s.boolean() ? (uint64_t)n : (s.boolean() ? (uint64_t)n + s.draw(1000) : ~0ull - s.draw(3)); REQUIRE(pbt::throwsAny([&] { S.assignTrueLabel((size_t)bad); }), "label ", bad, " accepted"); SimpleMatrix<double> X(dim3(n, 1, 1)), dummy; REQUIRE(pbt::throwsAny([&] { S.propagateBackward(X, X, dummy, 0, false); }), "a refused label was taken");
}
