#include "nnref.h"
using namespace my_cnn;
struct Cfg { D3 fd; int nf, stride; RD W, b; };
static Cfg genCfg(Src& s, Vc vc) {
    Cfg k; bool big = s.chance(1, 12), huge = s.chance(1, 60); k.fd = D3{s.range(1, big ? 9 : 5), s.range(1, big ? 9 : 5), s.range(1, huge ? 20 : big ? 6 : 4)}; k.nf = s.range(1, huge ? 40 : big ? 8 : 4); k.stride = s.boolean() ? s.range(1, big ? 12 : 5) : 1;
    k.W = genRef<double>(s, D3{k.fd.x, k.fd.y, k.fd.z * k.nf}, vc); k.b = genRef<double>(s, D3{k.nf, 1, 1}, vc); return k;
}
PROP(forward, 8) {
    Src& s = c.s; Vc vc = s.chance(1, 3) ? Vc::Reals : Vc::Ints; Cfg k = genCfg(s, vc);
    Kernel K(k.fd.d(), (unsigned)k.nf, (unsigned)k.stride); K.weights = build(k.W, 0); K.biases = build(k.b, 0); REQUIRE(K.getType() == KERNEL);
    int calls = s.range(1, 3);
    for (int q = 0; q < calls; q++) {
        D3 id{k.fd.x + s.range(0, 8), k.fd.y + s.range(0, 8), k.fd.z}; if (s.chance(1, 20)) { id.x += 20; id.y += s.range(0, 25); }
        RD in = genRef<double>(s, id, vc); c.log(" filter", k.fd, "x", k.nf, " stride ", k.stride, " in ", in, " W ", k.W, " b ", k.b);
        SimpleMatrix<double> I = build(in, 0); REQUIRE(K.checkSize(I), "valid input refused"); dim3 os = K.outputSize(I); RD want = refConv(in, k.W, k.b, k.fd, k.nf, k.stride), mag = refConvAbs(in, k.W, k.b, k.fd, k.nf, k.stride);
        REQUIRE(fromDim(os) == want.d, "predicted ", fromDim(os), " expected ", want.d);
        SimpleMatrix<double> out = K.propagateForward(std::move(I), (size_t)s.range(0, 2));
        expectNear(out, want, [&](int x, int y, int z) { return mag.at(x, y, z) * 1e-12; }, "convolution layer output");
        expectEq(K.weights, k.W, "weights after forward"); expectEq(K.biases, k.b, "biases after forward");
        c.label(k.stride > 1 ? "stride > 1" : "stride 1"); c.label(k.fd.z > 1 && k.nf > 1 ? "multi-channel multi-filter" : "single channel or filter"); if (id.x != id.y || k.fd.x != k.fd.y) c.label("non-square");
        c.nontrivial |= want.d.size() > 1 && k.fd.size() > 1;
    }
}
PROP(refusal, 3) {
    Src& s = c.s; Cfg k = genCfg(s, Vc::Ints); Kernel K(k.fd.d(), (unsigned)k.nf, (unsigned)k.stride); K.weights = build(k.W, 0); K.biases = build(k.b, 0);
    D3 id{k.fd.x + s.range(0, 5), k.fd.y + s.range(0, 5), k.fd.z}; int why = s.range(0, 3); if (k.fd.x == 1 && why == 1) why = 0; if (k.fd.y == 1 && why == 2) why = 0;
    if (why == 0) id.z += s.range(1, 3); else if (why == 1) id.x = s.range(1, k.fd.x - 1); else if (why == 2) id.y = s.range(1, k.fd.y - 1); else { if (k.fd.z == 1) id.z = 2; else id.z = s.range(1, k.fd.z - 1); }
    c.log("filter", k.fd, "x", k.nf, " stride ", k.stride, " in ", id); c.label("refused"); c.nontrivial = true; RD in = genRef<double>(s, id, Vc::Ints);
    SimpleMatrix<double> I = build(in, 0); REQUIRE(!K.checkSize(I), "input of size ", id, " accepted by the size check");
    REQUIRE(pbt::throws<ModelLayerException>([&] { K.propagateForward(std::move(I)); }), "input of size ", id, " accepted for filter ", k.fd);
    expectEq(K.weights, k.W, "weights after refusal"); expectEq(K.biases, k.b, "biases after refusal");
    D3 ok{k.fd.x + 1, k.fd.y, k.fd.z}; RD in2 = genRef<double>(s, ok, Vc::Ints); expectEq(K.propagateForward(build(in2, 0)), refConv(in2, k.W, k.b, k.fd, k.nf, k.stride), "output after a refusal");
}
