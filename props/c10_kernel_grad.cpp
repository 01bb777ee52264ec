#include "nnref.h"
using namespace my_cnn;
PROP(gradients, 6) {
    Src& s = c.s; Vc vc = s.chance(1, 3) ? Vc::Reals : Vc::Ints; bool big = s.chance(1, 12), huge = s.chance(1, 60);
    D3 fd{s.range(1, big ? 7 : 4), s.range(1, big ? 7 : 4), s.range(1, huge ? 12 : big ? 5 : 3)}; int nf = s.range(1, huge ? 24 : big ? 6 : 3), slots = s.chance(1, 12) ? s.range(1, 80) : s.range(1, 3);
    RD W = genRef<double>(s, D3{fd.x, fd.y, fd.z * nf}, vc), b = genRef<double>(s, D3{nf, 1, 1}, vc); Kernel K(fd.d(), (unsigned)nf, 1); K.weights = build(W, 0); K.biases = build(b, 0); K.setBatchSize((size_t)slots);
    int calls = s.range(1, 3); c.log("filter", fd, "x", nf, " W ", W);
    for (int q = 0; q < calls; q++) {
        D3 id{fd.x + s.range(0, 6), fd.y + s.range(0, 6), fd.z}; RD X = genRef<double>(s, id, vc); RD dY = genRef<double>(s, D3{id.x - fd.x + 1, id.y - fd.y + 1, nf}, vc); c.log(" X ", X, " dY ", dY);
        RD dW, dB, dX; refConvBack(X, W, dY, fd, nf, dW, dB, dX); double mx = 1, mg = 1, mw = 1; for (auto v : X.v) mx = std::max(mx, std::fabs(v)); for (auto v : dY.v) mg = std::max(mg, std::fabs(v)); for (auto v : W.v) mw = std::max(mw, std::fabs(v));
        double n = (double)(dY.d.size() + W.d.size()), tol = 1e-13 * n * mg * std::max(mx, mw) ;
        const SimpleMatrix<double> mX = build(X, 0), mdY = build(dY, 0), mY = build(refConv(X, W, b, fd, nf, 1), 0);
        if (s.boolean()) { K.propagateForward(build(X, 0)); c.label("after forward"); }
        int order = s.range(0, 2);
        auto ws = [&] { expectNear(K.getdLdW(mX, mdY), dW, tol, "weight gradient"); }; auto bs = [&] { expectNear(K.getdLdB(mdY), dB, tol, "bias gradient"); }; auto xs = [&] { expectNear(K.getdLdX(mX, mdY), dX, tol, "input gradient"); };
        if (order == 0) { ws(); bs(); xs(); } else if (order == 1) { xs(); ws(); bs(); } else { bs(); xs(); ws(); }
        bool last = s.boolean(); SimpleMatrix<double> r = K.propagateBackward(mX, mY, mdY, (size_t)s.range(0, slots - 1), last);
        if (!last || r.size() != 0) expectNear(r, dX, tol, "gradient returned by the backward pass");
        expectEq(K.weights, W, "weights after backward"); expectEq(K.biases, b, "biases after backward"); expectEq(mX, X, "input after backward"); expectEq(mdY, dY, "output gradient after backward");
        c.label(id.x != id.y ? "non-square input" : "square input"); c.label(last ? "first layer" : "inner layer"); if (fd.z > 1 && nf > 1) c.label("multi-channel multi-filter");
        c.nontrivial |= fd.size() > 1 && dY.d.size() > 1;
    }
}
// The definition itself, on the library's own forward pass: <dY, out(p + e) - out(p)> = e * gradient (the layer is linear in every parameter and input)
PROP(definition, 2) {
    Src& s = c.s; D3 fd{s.range(1, 4), s.range(1, 4), s.range(1, 3)}; int nf = s.range(1, 3); D3 id{fd.x + s.range(0, 5), fd.y + s.range(0, 5), fd.z};
    RD W = genRef<double>(s, D3{fd.x, fd.y, fd.z * nf}, Vc::Ints), b = genRef<double>(s, D3{nf, 1, 1}, Vc::Ints), X = genRef<double>(s, id, Vc::Ints), dY = genRef<double>(s, D3{id.x - fd.x + 1, id.y - fd.y + 1, nf}, Vc::Ints);
    Kernel K(fd.d(), (unsigned)nf, 1); K.weights = build(W, 0); K.biases = build(b, 0); c.log("filter", fd, "x", nf, " W ", W, " X ", X, " dY ", dY); c.nontrivial = fd.size() > 1 && dY.d.size() > 1; c.label("definition");
    SimpleMatrix<double> mX = build(X, 0), mdY = build(dY, 0); auto L = [&] { SimpleMatrix<double> o = K.propagateForward(SimpleMatrix<double>(mX)); double t = 0; dY.each([&](int x, int y, int z) { t += dY.at(x, y, z) * o(x, y, z); }); return t; };
    auto gw = K.getdLdW(mX, mdY), gb = K.getdLdB(mdY), gx = K.getdLdX(mX, mdY); REQUIRE(fromDim(gw.dim()) == W.d); REQUIRE(fromDim(gb.dim()) == b.d); REQUIRE(fromDim(gx.dim()) == X.d);
    double l0 = L(); size_t i = s.draw(W.v.size() - 1), j = s.draw(b.v.size() - 1), k = s.draw(X.v.size() - 1);
    K.weights[i] += 1; REQUIRE(L() - l0 == gw[i], "weight ", i); K.weights[i] -= 1; K.biases[j] += 1; REQUIRE(L() - l0 == gb[j], "bias ", j); K.biases[j] -= 1; mX[k] += 1; REQUIRE(L() - l0 == gx[k], "input ", k);
}
