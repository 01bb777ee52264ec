// C31: a model consists of exactly the layers that were added to it, in order, named and configured as asked.
#include "modelfile.h"
using namespace my_cnn;
using pbt::fail;
struct Want { RefLayer l; std::string name; const ModelLayer* at = nullptr; bool known = false; RD W, b; };       // W, b: parameters as last seen
static const char* kinds[] = {"Kernel", "Pooling", "Activation", "FullyConnected"};
static ModelFlowMode flow(int k) { return k == L_CONV ? KERNEL : k == L_POOL ? POOLING : k == L_ACT ? ACTIVATION : k == L_FC ? FULLY_CONNECTED : OUTPUT; }
// the layer does what was asked for
static void probe(Src& s, ModelLayer& y, const RefLayer& l, const std::string& what) {
    switch (l.kind) {
        case L_CONV: {
            REQUIRE(fromDim(y.weights.dim()) == (D3{l.fd.x, l.fd.y, l.fd.z * l.nf}) && fromDim(y.biases.dim()) == (D3{l.nf, 1, 1}), what, " has weights ", fromDim(y.weights.dim()), " and biases ", fromDim(y.biases.dim()), " instead of ", l.name());
            RD x = randRD(s, D3{l.fd.x + s.range(0, 3), l.fd.y + s.range(0, 3), l.fd.z}, 1), W = toRef(y.weights), b = toRef(y.biases); RD want = refConv(x, W, b, l.fd, l.nf, 1); expectNear(y.propagateForward(build(x, 0), 0), want, 1e-9, what.c_str()); break; }
        case L_POOL: { RD x = randRD(s, D3{l.wx + s.range(0, 4), l.wy + s.range(0, 4), s.range(1, 2)}, 1); expectNear(y.propagateForward(build(x, 0), 0), refPool(x, l.wx, l.wy, l.sx, l.sy, l.pk), 1e-12, what.c_str()); break; }
        case L_ACT: { RD x = randRD(s, D3{s.range(1, 3), 2, 1}, 3), want = x; for (auto& v : want.v) v = refAct(l.act, v); expectNear(y.propagateForward(build(x, 0), 0), want, 1e-7, what.c_str()); break; }
        case L_FC: {
            REQUIRE(fromDim(y.biases.dim()) == (D3{l.nout, 1, 1}), what, " has biases ", fromDim(y.biases.dim()), " instead of ", l.nout); auto* fc = dynamic_cast<ConnectedLayer*>(&y); REQUIRE(fc, what, " is not a fully connected layer");
            if (y.weights.size() == 0) { ConnectedLayer copy = *fc; RD x = randRD(s, D3{2, 2, 1}, 1); REQUIRE(fromDim(copy.propagateForward(build(x, 0), 0).dim()) == (D3{l.nout, 1, 1}), what, " does not give ", l.nout, " outputs"); } break; }
        default: { RD x = randRD(s, D3{l.nout, 1, 1}, 2); expectNear(y.propagateForward(build(x, 0), 0), refSoftmax(x), 1e-9, what.c_str()); bool thrown = false; try { RD z = randRD(s, D3{l.nout + 1, 1, 1}, 2); y.propagateForward(build(z, 0), 0); } catch (const std::exception&) { thrown = true; } REQUIRE(thrown, what, " accepts ", l.nout + 1, " scores for ", l.nout, " labels"); }
    }
}
template<class In, class Out> struct Live { ModelDescription<In, Out> m; std::vector<Want> w; int n[4] = {0, 0, 0, 0}; std::vector<Out> labels; bool closed = false; };
template<class In, class Out> void check(const Live<In, Out>& v, int id) {
    std::string nm = "model " + std::to_string(id); REQUIRE(v.m.layers.size() == v.w.size(), nm, " has ", v.m.layers.size(), " layers instead of ", v.w.size());
    for (size_t i = 0; i < v.w.size(); i++) {
        const Want& w = v.w[i]; const auto& y = *v.m.layers[i]; REQUIRE(&y == w.at, nm, " layer ", i, " was replaced"); REQUIRE(y.getType() == flow(w.l.kind), nm, " layer ", i, " is of kind ", (int)y.getType(), " instead of ", w.l.name()); REQUIRE(y.name == w.name, nm, " layer ", i, " is named '", y.name, "' instead of '", w.name, "'");
        if (w.known) { REQUIRE(refSame(toRef(y.weights), w.W), nm, " layer ", i, ": weights changed"); REQUIRE(refSame(toRef(y.biases), w.b), nm, " layer ", i, ": biases changed"); }
    }
    REQUIRE(v.m.output_labels == v.labels, nm, " has other labels"); REQUIRE(v.m.loss_function == CROSS_ENTROPY, nm, " has another loss function");
}
static void see(Want& w, const ModelLayer& y) { w.known = true; w.W = toRef(y.weights); w.b = toRef(y.biases); w.at = &y; }
template<class In, class Out> void histories(Ctx& c) {
    using M = ModelDescription<In, Out>; Src& s = c.s; std::vector<std::unique_ptr<Live<In, Out>>> live; live.push_back(std::make_unique<Live<In, Out>>()); int steps = s.chance(1, 10) ? s.range(1, 60) : s.range(1, 14), adds = 0, loads = 0; bool many = steps > 14;
    for (int q = 0; q < steps; q++) {
        size_t k = s.draw(live.size() - 1); auto& v = *live[k]; int op = (int)s.weighted({12, 2, 1, 2, 1});
        if (op == 0 && !v.closed) {
            RefLayer l; l.kind = (int)s.weighted({1, 1, 1, 1}); Want w; const ModelLayer* ret = nullptr; c.log("; ", k, "+");
            switch (l.kind) {
                case 0: l.kind = L_CONV; l.fd = D3{s.range(1, 6), s.range(1, 6), s.range(1, 4)}; l.nf = s.range(1, s.chance(1, 20) ? 200 : 5); ret = &v.m.addKernel(l.fd.d(), (size_t)l.nf); break;
                case 1: l.kind = L_POOL; l.wx = s.range(1, 5); l.wy = s.range(1, 5); l.sx = s.range(1, 4); l.sy = s.range(1, 4); l.pk = s.range(0, 2); ret = &v.m.addPooling(dim2(l.wx, l.wy), dim2(l.sx, l.sy), (PoolingType)l.pk); break;
                case 2: l.kind = L_ACT; l.act = s.range(0, 4); ret = &v.m.addActivation((ModelActivationFunction)l.act); break;
                default: l.kind = L_FC; l.nout = s.range(1, s.chance(1, 20) ? 500 : 12); ret = &v.m.addConnectedLayer((size_t)l.nout);
            }
            c.log(l.name()); w.l = l; w.name = std::string(kinds[l.kind == L_CONV ? 0 : l.kind == L_POOL ? 1 : l.kind == L_ACT ? 2 : 3]) + "_" + std::to_string(++v.n[l.kind == L_CONV ? 0 : l.kind == L_POOL ? 1 : l.kind == L_ACT ? 2 : 3]); REQUIRE(!v.m.layers.empty() && ret == v.m.layers.back().get(), "the layer returned is not the last layer of the model"); see(w, *ret); v.w.push_back(w); probe(s, *v.m.layers.back(), l, "new " + w.name); adds++;
        } else if (op == 1) {                                         // change one layer's parameters through the model
            if (v.w.empty()) continue; size_t i = s.draw(v.w.size() - 1); auto& y = *v.m.layers[i]; if (y.weights.size() == 0) continue; y.weights[s.draw(y.weights.size() - 1)] += 1; y.biases[s.draw(y.biases.size() - 1)] -= 2; see(v.w[i], y); c.log("; ", k, " edit ", i);
        } else if (op == 2) { if (live.size() < 4) { live.push_back(std::make_unique<Live<In, Out>>()); c.log("; new model"); c.label("several models"); } }
        else if (op == 3 && !v.closed) {                              // labels: with softmax the model is complete
            auto labels = anyLabels<Out>(s, s.range(1, many ? 60 : 6)); bool soft = s.boolean(); if (soft) { v.m.setOutputLabels(labels); Want w; w.l.kind = L_SOFTMAX; w.l.nout = (int)labels.size(); w.name = "SoftmaxOutput"; REQUIRE(!v.m.layers.empty(), "no output layer"); see(w, *v.m.layers.back()); v.w.push_back(w); v.closed = true; REQUIRE(v.m.layers.size() == v.w.size(), "setting the labels gives ", v.m.layers.size(), " layers instead of ", v.w.size()); probe(s, *v.m.layers.back(), w.l, "output layer"); c.label("softmax"); }
            else { v.m.setOutputLabels(labels, UNSPECIFIED_OUTPUT); c.label("labels only"); } v.labels = labels; c.log("; ", k, " labels ", labels.size(), soft ? " softmax" : "");
        } else if (op == 4) {                                         // a loaded model has the same layers under the same names, and goes on counting
            std::string p = pbt::scratchDir() + "/m"; if (!v.m.saveModel(p)) fail("saveModel reports failure"); auto n = std::make_unique<Live<In, Out>>(); REQUIRE(n->m.loadModel(p), "loadModel reports failure: ", slurp(p).substr(0, 300));
            REQUIRE(n->m.layers.size() == v.w.size(), "loaded model has ", n->m.layers.size(), " layers instead of ", v.w.size()); n->w = v.w; std::copy(v.n, v.n + 4, n->n); n->labels = v.labels; n->closed = v.closed; for (size_t i = 0; i < n->w.size(); i++) { REQUIRE(fromDim(n->m.layers[i]->weights.dim()) == n->w[i].W.d || n->w[i].W.v.empty(), "loaded layer ", i, " has weights ", fromDim(n->m.layers[i]->weights.dim())); see(n->w[i], *n->m.layers[i]); }
            check(*n, 99); for (size_t i = 0; i < n->w.size(); i++) probe(s, *n->m.layers[i], n->w[i].l, "loaded " + n->w[i].name); live[k] = std::move(n); loads++; c.log("; ", k, " saved and loaded"); c.label("loaded");
        }
        for (size_t i = 0; i < live.size(); i++) check(*live[i], (int)i);
    }
    for (size_t k = 0; k < live.size(); k++) for (size_t i = 0; i < live[k]->w.size(); i++) probe(s, *live[k]->m.layers[i], live[k]->w[i].l, "finally " + live[k]->w[i].name);
    c.nontrivial = adds > 1;
}
PROP(histories, 1) { switch (c.s.range(0, 2)) { case 0: histories<double, std::string>(c); break; case 1: histories<float, int>(c); break; default: histories<unsigned char, double>(c); } }
