#include "nnref.h"
using namespace my_cnn;
// One layer (convolution or fully connected) driven through a random history of batch operations, against a model of pending gradients.
PROP(history, 6) {
    Src& s = c.s; bool conv = s.boolean(), big = s.chance(1, 20); Vc vc = s.chance(1, 3) ? Vc::Reals : Vc::Ints; std::shared_ptr<ModelLayer> L; RefLayer ref; D3 in;
    if (conv) { ref.kind = L_CONV; ref.fd = D3{s.range(1, 3), s.range(1, 3), s.range(1, 2)}; ref.nf = s.range(1, big ? 20 : 3); in = D3{ref.fd.x + s.range(0, 3), ref.fd.y + s.range(0, 3), ref.fd.z}; L = std::make_shared<Kernel>(ref.fd.d(), (unsigned)ref.nf, 1); }
    else { ref.kind = L_FC; ref.nout = s.range(1, big ? 60 : 4); in = D3{s.range(1, 4), s.range(1, 4), s.range(1, 2)}; L = std::make_shared<ConnectedLayer>((unsigned)ref.nout); L->propagateForward(SimpleMatrix<double>(in.d(), 1.0)); }
    ref.W = genRef<double>(s, fromDim(L->weights.dim()), vc); ref.b = genRef<double>(s, fromDim(L->biases.dim()), vc); L->weights = build(ref.W, 0); L->biases = build(ref.b, 0);
    struct G { RD w, b; }; int slots = 0; std::vector<std::unique_ptr<G>> pend; auto size = [&](int n) { L->setBatchSize((size_t)n); slots = n; pend.clear(); pend.resize((size_t)n); };
    if (s.chance(1, 10)) { L->applyBatch(0.5); c.label("apply before any batch size"); }
    bool many = s.chance(1, 15); size(s.range(1, many ? 100 : 5)); int steps = s.range(2, many ? 150 : 16), applied = 0, total = 0; c.log(ref.name(), " in ", in, " slots ", slots);
    double scale = 1;
    for (int q = 0; q < steps; q++) {
        switch (s.weighted({8, 4, 1, 1})) {
            case 0: {
                int slot = s.range(0, slots - 1); D3 d = in; if (conv && s.chance(1, 3)) { d.x += s.range(0, 2); d.y += s.range(0, 2); } RD X = genRef<double>(s, d, vc), g = genRef<double>(s, ref.outDim(d), vc); if (s.chance(1, 8)) { double k = s.pick({1e3, 1e5, 1e-6}); for (auto& v : g.v) v *= k; } auto p = std::make_unique<G>(); RD dX = ref.backward(X, X, g, p->w, p->b);
                bool last = s.boolean(); SimpleMatrix<double> r = L->propagateBackward(build(X, 0), build(ref.forward(X), 0), build(g, 0), (size_t)slot, last); double m = 1; for (auto v : dX.v) m = std::max(m, std::fabs(v)); if (r.size()) expectNear(r, dX, 1e-11 * m, "input gradient"); c.log("; backward[", slot, "]"); if (pend[(size_t)slot]) c.label("slot re-used"); pend[(size_t)slot] = std::move(p); total++; break;
            }
            case 1: {
                double lr = s.pick({0.5, 1.0, 0.125, 0.03, 0.0, 2.0, -0.5, -0.03, 1e-9, 100.0}); RD sw(ref.W.d), sb(ref.b.d); int n = 0; for (auto& p : pend) if (p) { n++; for (size_t i = 0; i < sw.v.size(); i++) sw.v[i] += p->w.v[i]; for (size_t i = 0; i < sb.v.size(); i++) sb.v[i] += p->b.v[i]; }
                c.log("; apply(", lr, ") of ", n); c.label(n == 0 ? "empty batch" : n < slots ? "partial batch" : "full batch"); for (auto v : sw.v) scale = std::max(scale, std::fabs(v)); for (auto v : sb.v) scale = std::max(scale, std::fabs(v));
                if (n) { for (size_t i = 0; i < sw.v.size(); i++) ref.W.v[i] -= lr * sw.v[i] / n; for (size_t i = 0; i < sb.v.size(); i++) ref.b.v[i] -= lr * sb.v[i] / n; applied++; }
                L->applyBatch(lr); for (auto& p : pend) p.reset(); break;
            }
            case 2: { int n = s.range(1, many ? 100 : 5); c.log("; slots ", n); c.label("batch size set again"); size(n); break; }
            default: { RD X = genRef<double>(s, in, vc); RD w = ref.forward(X); double m = 1; for (auto v : w.v) m = std::max(m, std::fabs(v)); expectNear(L->propagateForward(build(X, 0), 0), w, 1e-9 * m, "forward pass"); c.log("; forward"); }
        }
        double mw = scale; for (auto v : ref.W.v) mw = std::max(mw, std::fabs(v)); expectNear(L->weights, ref.W, 1e-11 * mw, "weights"); expectNear(L->biases, ref.b, 1e-11 * mw, "biases");
        if (mw > 1e9) break;
        ref.W = toRef(L->weights); ref.b = toRef(L->biases);      // follow rounding
    }
    c.nontrivial = applied > 0 && total > 1; c.label(conv ? "convolution" : "fully connected");
}
