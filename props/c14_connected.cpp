#include "nnref.h"
using namespace my_cnn;
static RD forwardRef(const RD& X, const RD& W, const RD& b, RD& mag) { int n = W.d.x; RD o(D3{n, 1, 1}); mag = RD(o.d); for (int r = 0; r < n; r++) { double t = b.at(r, 0, 0), m = std::fabs(t); for (size_t i = 0; i < X.v.size(); i++) { double p = W.at(r, (int)i, 0) * X.flat(i); t += p; m += std::fabs(p); } o.at(r, 0, 0) = t; mag.at(r, 0, 0) = m; } return o; }
static D3 factor(Src& s, int n) { std::vector<D3> v; for (int x = 1; x <= n; x++) if (n % x == 0) for (int y = 1; y <= n / x; y++) if ((n / x) % y == 0) v.push_back(D3{x, y, n / x / y}); return s.pick(v); }
PROP(history, 6) {
    Src& s = c.s; Vc vc = s.chance(1, 3) ? Vc::Reals : Vc::Ints; int nout = s.chance(1, 30) ? s.range(1, 200) : s.range(1, 8); ConnectedLayer L((unsigned)nout); REQUIRE(L.getType() == FULLY_CONNECTED); D3 d0 = genDim(s, s.chance(1, 8) ? Sz::Normal : Sz::Tiny); if (d0.size() > (nout > 8 ? 400 : 3000)) d0 = D3{7, 5, 3}; int n = (int)d0.size(); int slots = s.chance(1, 20) ? s.range(1, 100) : s.range(1, 3); L.setBatchSize((size_t)slots);
    // the first input fixes the size
    RD X0 = genRef<double>(s, d0, vc); c.log("FC", nout, " first input ", d0); RD m0; SimpleMatrix<double> first = L.propagateForward(build(X0, 0)); REQUIRE(fromDim(L.weights.dim()) == (D3{nout, n, 1}), "weights ", fromDim(L.weights.dim())); REQUIRE(fromDim(L.biases.dim()) == (D3{nout, 1, 1}));
    { RD want = forwardRef(X0, toRef(L.weights), toRef(L.biases), m0); expectNear(first, want, [&](int x, int y, int z) { return m0.at(x, y, z) * 1e-12; }, "output for the first input"); }
    RD W = genRef<double>(s, D3{nout, n, 1}, vc), b = genRef<double>(s, D3{nout, 1, 1}, vc); if (s.chance(4, 5)) { L.weights = build(W, 0); L.biases = build(b, 0); } else { W = toRef(L.weights); b = toRef(L.biases); }
    int steps = s.range(1, 6); c.nontrivial = n > 1;
    for (int q = 0; q < steps; q++) {
        int what = (int)s.weighted({3, 3, 2}); D3 d = s.boolean() ? d0 : factor(s, n);
        if (what == 2) {                                             // wrong element count
            D3 w = s.boolean() ? genDim(s, Sz::Tiny) : D3{d0.x + 1, d0.y, d0.z}; if (w.size() == n) w.z += 1; c.log("; wrong size ", w); c.label("refused"); RD X = genRef<double>(s, w, vc);
            REQUIRE(pbt::throws<ModelLayerException>([&] { L.propagateForward(build(X, 0)); }), "input of ", w.size(), " elements accepted by a layer of ", n);
            if (s.boolean()) REQUIRE(!L.checkSize(build(X, 0)), "wrong size accepted by the size check");
        } else {
            RD X = genRef<double>(s, d, vc), mag; RD Y = forwardRef(X, W, b, mag); c.log("; input ", X); expectNear(L.propagateForward(build(X, 0), (size_t)s.range(0, slots - 1)), Y, [&](int x, int y, int z) { return mag.at(x, y, z) * 1e-12; }, "output"); c.label(d == d0 ? "same shape" : "other shape, same count");
            if (what == 1) {
                RD g = genRef<double>(s, D3{nout, 1, 1}, vc); c.log(" backward ", g); c.label("backward"); RD dW(W.d), dX(d); for (int r = 0; r < nout; r++) for (int i = 0; i < n; i++) { dW.at(r, i, 0) = g.at(r, 0, 0) * X.flat((size_t)i); dX.flat((size_t)i) += g.at(r, 0, 0) * W.at(r, i, 0); }
                double mx = 1; for (auto v : g.v) mx = std::max(mx, std::fabs(v)); double mw = 1; for (auto v : W.v) mw = std::max(mw, std::fabs(v)); for (auto v : X.v) mw = std::max(mw, std::fabs(v)); double tol = 1e-13 * mx * mw * nout;
                const SimpleMatrix<double> mX = build(X, 0), mY = build(Y, 0), mg = build(g, 0); expectNear(L.getdLdW(mX, mg), dW, tol, "weight gradient"); expectNear(L.getdLdB(mg), g, tol, "bias gradient");
                if (d == d0) expectNear(L.getdLdX(mg), dX, tol, "input gradient");
                bool last = s.boolean(); SimpleMatrix<double> r = L.propagateBackward(mX, mY, mg, (size_t)s.range(0, slots - 1), last); if (!last || r.size()) expectNear(r, dX, tol, "gradient returned by the backward pass"); expectEq(mX, X, "input after backward"); expectEq(mg, g, "gradient after backward");
            }
        }
        expectEq(L.weights, W, "weights"); expectEq(L.biases, b, "biases");
    }
}
