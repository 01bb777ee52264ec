// C22: a layer restored from text behaves like the layer that was written, whatever the receiver was before.
#include "nnref.h"
using namespace my_cnn;
struct Gen { RefLayer r; unsigned stride = 1; D3 in; bool seen = true; };
static Gen genLayer(Src& s, int kind) {
    Gen g; bool big = s.chance(1, 25); RefLayer& l = g.r; l.kind = kind; g.in = D3{s.range(1, big ? 16 : 7), s.range(1, big ? 16 : 7), s.range(1, big ? 8 : 3)};
    switch (kind) {
        case L_CONV: l.fd = D3{s.range(1, g.in.x), s.range(1, g.in.y), g.in.z}; l.nf = s.range(1, big ? 16 : 4); g.stride = s.chance(1, 4) ? (unsigned)s.range(2, big ? 15 : 4) : 1; break;
        case L_POOL: l.wx = s.range(1, g.in.x); l.wy = s.range(1, g.in.y); l.sx = s.range(1, big ? 14 : 4); l.sy = s.range(1, big ? 14 : 4); l.pk = s.range(0, 2); break;
        case L_ACT: l.act = s.range(0, 4); break;
        case L_FC: l.nout = s.range(1, big ? 40 : 5); g.seen = !s.chance(1, 5); break;
        default: l.nout = s.range(1, big ? 40 : 6); g.in = D3{l.nout, 1, 1};
    }
    return g;
}
static std::shared_ptr<ModelLayer> make(const Gen& g) { if (g.r.kind == L_CONV) return std::make_shared<Kernel>(g.r.fd.d(), (unsigned)g.r.nf, g.stride); return makeLayer(g.r); }
static D3 outOf(const Gen& g, D3 d) { if (g.r.kind == L_CONV) return D3{(d.x - g.r.fd.x) / (int)g.stride + 1, (d.y - g.r.fd.y) / (int)g.stride + 1, g.r.nf}; return g.r.outDim(d); }
static bool params(const Gen& g) { return g.r.kind == L_CONV || g.r.kind == L_FC; }
// use a layer: inference, gradients, updates
static void exercise(Src& s, ModelLayer& L, const Gen& g, int n) {
    for (int i = 0; i < n; i++) {
        L.setBatchSize(2); RD X = randRD(s, g.in, 2); auto Y = L.propagateForward(build(X, 0), (size_t)i % 2); if (g.r.kind == L_CONV && g.stride > 1) continue; if (g.r.kind == L_SOFTMAX) continue;
        L.propagateBackward(build(X, 0), Y, build(randRD(s, fromDim(Y.dim()), 1), 0), (size_t)i % 2, false); if (s.boolean()) L.applyBatch(0.1);
    }
}
static void near(const SimpleMatrix<double>& a, const SimpleMatrix<double>& b, const char* what) { RD r = toRef(b); double m = 1; for (auto v : r.v) m = std::max(m, std::fabs(v)); expectNear(a, r, 1e-12 * m, what); }
static double wide(Src& s) { return s.pick({1.0, 1.0, 0.001, 50.0, 1e5, 1e-7, 1e12}); }
// original and restored layer, driven alike, must stay alike
static void behaveAlike(Ctx& c, ModelLayer& A, ModelLayer& B, const Gen& g) {
    Src& s = c.s; int slots = s.range(1, 3); A.setBatchSize((size_t)slots); B.setBatchSize((size_t)slots);
    int steps = s.range(1, 4); struct Seen { RD X; SimpleMatrix<double> Y; }; std::vector<std::unique_ptr<Seen>> seen((size_t)slots);
    for (int i = 0; i < steps; i++) {
        size_t slot = s.draw((uint64_t)slots - 1); D3 d = g.in; if (g.r.kind == L_CONV || g.r.kind == L_POOL) { d.x += s.range(0, 2); d.y += s.range(0, 2); } if (g.r.kind == L_FC && s.chance(1, 3)) d = D3{(int)d.size(), 1, 1};
        RD X = randRD(s, d, 3); auto ya = A.propagateForward(build(X, 0), slot), yb = B.propagateForward(build(X, 0), slot); near(yb, ya, "forward pass of the restored layer"); REQUIRE(fromDim(yb.dim()) == outOf(g, d), "restored layer ", g.r.name(), " gives ", fromDim(yb.dim()), " for ", d, " instead of ", outOf(g, d));
        if ((g.r.kind == L_CONV && g.stride > 1) || g.r.kind == L_SOFTMAX) continue;
        RD G = randRD(s, fromDim(ya.dim()), 1); bool last = s.chance(1, 4); auto da = A.propagateBackward(build(X, 0), ya, build(G, 0), slot, last), db = B.propagateBackward(build(X, 0), yb, build(G, 0), slot, last); near(db, da, "input gradient of the restored layer");
        if (s.chance(2, 3)) { double lr = s.pick({0.5, 0.01}); A.applyBatch(lr); B.applyBatch(lr); if (params(g)) { near(B.weights, A.weights, "weights of the restored layer after an update"); near(B.biases, A.biases, "biases of the restored layer after an update"); } c.label("trained after restoring"); }
    }
    if (g.r.kind == L_FC) { D3 bad = D3{(int)g.in.size() + 1, 1, 1}; REQUIRE(pbt::throwsAny([&] { B.propagateForward(SimpleMatrix<double>(bad.d()), 0); }), "restored fully connected layer accepts ", bad, " after ", g.in); }
}
PROP(restore, 1) {
    Src& s = c.s; int n = (int)s.weighted({4, 2, 1, 1}) + 1; std::stringstream ss; struct One { Gen g; std::shared_ptr<ModelLayer> A, B; std::string text; }; std::vector<One> v;
    for (int i = 0; i < n; i++) {
        One o; int kind = (int)s.weighted({4, 3, 3, 4, 1}); o.g = genLayer(s, kind); o.A = make(o.g);
        if (kind == L_FC && o.g.seen) o.A->propagateForward(SimpleMatrix<double>(o.g.in.d(), 1.0));
        if (params(o.g) && o.g.seen) { if (s.chance(4, 5)) { double sc = wide(s); o.A->weights = build(randRD(s, fromDim(o.A->weights.dim()), sc), 0); o.A->biases = build(randRD(s, fromDim(o.A->biases.dim()), sc), 0); } }
        if (o.g.seen && s.chance(1, 3)) { exercise(s, *o.A, o.g, s.range(1, 3)); c.label("written layer was in use"); }
        Gen rg = kind == L_SOFTMAX ? o.g : genLayer(s, kind); o.B = make(rg); if (s.boolean()) { if (rg.seen || s.boolean()) exercise(s, *o.B, rg, s.range(1, 2)); c.label("receiver was in use"); } else c.label("fresh receiver");
        o.text = o.A->serialize(); ss << o.text; REQUIRE(o.A->serialize() == o.text, "serialising twice gives different text"); c.log(i ? ", " : "", o.g.r.name(), " stride ", o.g.stride, o.g.seen ? "" : " unused", " in ", o.g.in, " into ", rg.r.name(), " stride ", rg.stride); c.label(kind == L_CONV ? "convolution" : kind == L_POOL ? "pooling" : kind == L_ACT ? "activation" : kind == L_FC ? (o.g.seen ? "fully connected" : "fully connected, unused") : "softmax");
        c.nontrivial |= rg.r.name() != o.g.r.name() || params(o.g); v.push_back(o);
    }
    bool tail = s.boolean(); if (tail) ss << "tail\n";
    for (auto& o : v) { REQUIRE(o.B->deserialize(ss), "layer ", o.g.r.name(), " reported as unreadable"); }
    if (tail) { std::string rest; std::getline(ss, rest); REQUIRE(rest == "tail", "text after the layers was consumed: '", rest, "'"); }
    for (auto& o : v) {
        REQUIRE(o.B->serialize() == o.text, "restored layer writes different text:\n", o.B->serialize().substr(0, 300), "\ninstead of\n", o.text.substr(0, 300));
        if (!o.g.seen) {        // a fully connected layer which never saw an input takes any input and gives the right number of outputs
            REQUIRE(o.B->biases.size() == (size_t)o.g.r.nout, "restored unused layer has ", o.B->biases.size(), " outputs"); auto y = o.B->propagateForward(SimpleMatrix<double>(o.g.in.d(), 1.0), 0); REQUIRE(fromDim(y.dim()) == (D3{o.g.r.nout, 1, 1}), "restored unused layer gives ", fromDim(y.dim())); for (size_t i = 0; i < y.size(); i++) REQUIRE(std::isfinite(y[i]), "restored unused layer gives ", y[i]);
            expectEq(o.B->weights, toRef(o.B->weights), ""); REQUIRE(fromDim(o.B->weights.dim()) == (D3{o.g.r.nout, (int)o.g.in.size(), 1}), "restored unused layer has weights of ", fromDim(o.B->weights.dim())); continue;
        }
        if (params(o.g)) {
            RD w = toRef(o.A->weights), b = toRef(o.A->biases); auto tol = [](const RD& r) { return [&r](int x, int y, int z) { return 5.1e-7 + 3e-16 * std::fabs(r.at(x, y, z)); }; };
            expectNear(o.B->weights, w, tol(w), "restored weights"); expectNear(o.B->biases, b, tol(b), "restored biases"); o.A->weights = o.B->weights; o.A->biases = o.B->biases;
        }
        behaveAlike(c, *o.A, *o.B, o.g);
    }
}
