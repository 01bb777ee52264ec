// C23: saved models load back as equivalent models.
#include "modelfile.h"
using namespace my_cnn;
struct Source : DataGenerator<double> {
    std::vector<RD> xs; std::vector<std::string> ls; size_t at = 0;
    LabeledInput<double> getNextDataPoint() override { LabeledInput<double> r; r.data = build(xs.at(at), 0); r.label = ls.at(at); at++; return r; }
    size_t size() override { return xs.size(); }
    bool hasAvailableData() override { return at < xs.size(); }
    void reset() override { at = 0; }
};
template<class M> SimpleMatrix<double> run(M& m, const RD& x, std::vector<SimpleMatrix<double>>* all = nullptr) { SimpleMatrix<double> a = build(x, 0); for (auto& l : m.layers) { a = l->propagateForward(std::move(a), 0); if (all) all->push_back(a); } return a; }
static void near(const SimpleMatrix<double>& a, const SimpleMatrix<double>& b, const std::string& what) { RD r = toRef(b); double m = 1; for (auto v : r.v) m = std::max(m, std::fabs(v)); expectNear(a, r, 1e-12 * m, what.c_str()); }
template<class M> void expectLoaded(M& L, const M& A, const RefStack& st, bool seen, const char* what) {
    REQUIRE(L.layers.size() == A.layers.size(), what, " has ", L.layers.size(), " layers instead of ", A.layers.size(), " of ", st.name()); REQUIRE(L.output_labels == A.output_labels, what, " has other labels (", L.output_labels.size(), " instead of ", A.output_labels.size(), ")");
    for (size_t i = 0; i < A.layers.size(); i++) {
        REQUIRE(L.layers[i]->getType() == A.layers[i]->getType(), "layer ", i, " of ", what, " is of another kind"); RD w = toRef(A.layers[i]->weights), b = toRef(A.layers[i]->biases); if (!seen && i < st.L.size() && st.L[i].kind == L_FC) { REQUIRE(L.layers[i]->biases.size() == A.layers[i]->biases.size(), "layer ", i, " of ", what, " has other outputs"); continue; }
        auto tol = [](const RD& r) { return [&r](int x, int y, int z) { return 5.1e-7 + 3e-16 * std::fabs(r.at(x, y, z)); }; };
        std::string nm = std::string(what) + " layer " + std::to_string(i); expectNear(L.layers[i]->weights, w, tol(w), (nm + " weights").c_str()); expectNear(L.layers[i]->biases, b, tol(b), (nm + " biases").c_str());
    }
}
template<class In, class Out> void roundTrip(Ctx& c) {
    using M = ModelDescription<In, Out>; Src& s = c.s; RefStack st = genStack(s, StackOpts{6, 8, false, true}); int output = (int)s.weighted({1, 1, 8}); bool seen = !s.chance(1, 5); if (s.chance(1, 30)) { st.L.clear(); }
    int nl = st.L.empty() ? s.range(0, 3) : st.labels; auto labels = anyLabels<Out>(s, nl); if (output == 0) labels.clear(); if (st.L.empty() && output == 2) output = 1;
    M A; buildModel(s, A, st, labels, seen, output); c.log(st.name(), seen ? "" : " (unused)", " output ", output, " labels ", labels.size()); c.label(seen ? "used" : "never used"); c.label(output == 2 ? "softmax" : output == 1 ? "labels only" : "no labels"); c.nontrivial = st.L.size() > 1;
    std::string p = pbt::scratchDir() + "/m", p2 = pbt::scratchDir() + "/m2"; if (s.boolean()) spit(p, std::string(20000, 'z')); std::vector<SimpleMatrix<double>> before, after; RD x = randRD(s, st.in, 1); if (seen) run(A, x, &before);
    REQUIRE(A.saveModel(p), "saveModel reports failure"); std::string text = slurp(p); if (seen) { run(A, x, &after); for (size_t i = 0; i < before.size(); i++) near(after[i], before[i], "output of the model after saving it, layer " + std::to_string(i)); }
    M B; REQUIRE(B.loadModel(p), "loadModel reports failure for ", st.name(), " file:\n", text.substr(0, 400)); expectLoaded(B, A, st, seen, "loaded model");
    REQUIRE(B.saveModel(p2), "saveModel of the loaded model reports failure"); std::string text2 = slurp(p2); REQUIRE(text == text2, "the loaded model is saved differently:\n", text2.substr(0, 300), "\ninstead of\n", text.substr(0, 300));
    if (!seen) { auto y = run(B, x); REQUIRE(fromDim(y.dim()) == (st.L.empty() ? st.in : D3{st.labels, 1, 1}), "loaded unused model gives ", fromDim(y.dim())); return; }
    for (size_t i = 0; i < st.L.size(); i++) { A.layers[i]->weights = B.layers[i]->weights; A.layers[i]->biases = B.layers[i]->biases; }
    int n = s.range(1, 3); for (int k = 0; k < n; k++) { RD X = randRD(s, st.in, s.pick({1.0, 5.0})); if (k == 0 && !st.L.empty() && (st.L[0].kind == L_CONV || st.L[0].kind == L_POOL)) {} std::vector<SimpleMatrix<double>> oa, ob; run(A, X, &oa); run(B, X, &ob); for (size_t i = 0; i < oa.size(); i++) near(ob[i], oa[i], "loaded model, output of layer " + std::to_string(i)); }
    if (output == 2) { Ref<In> xi = castRef<In>(x); auto ra = A.forwardPropagation(build(xi, 0)), rb = B.forwardPropagation(build(xi, 0)); REQUIRE(ra.label_idx == rb.label_idx && (ra.confidence == rb.confidence || (ra.confidence != ra.confidence && rb.confidence != rb.confidence)), "loaded model predicts ", rb.label_idx, " (", rb.confidence, ") instead of ", ra.label_idx, " (", ra.confidence, ")"); }
}
PROP(round_trip, 6) {
    switch (c.s.weighted({6, 2, 1, 1, 1, 1})) { case 0: roundTrip<double, std::string>(c); break; case 1: roundTrip<double, int>(c); break; case 2: roundTrip<float, float>(c); break; case 3: roundTrip<unsigned char, double>(c); break; case 4: roundTrip<float, char>(c); break; default: roundTrip<int, unsigned>(c); }
}
// histories of training, saving and loading
PROP(train_further, 3) {
    using M = ModelDescription<double, std::string>; Src& s = c.s; RefStack st = genStack(s, StackOpts{5, 6, false, true}); auto labels = makeLabels(s, st.labels); auto A = std::make_unique<M>(), B = std::make_unique<M>(); addLayers(*A, st); A->setOutputLabels(labels); A->forwardPropagation(SimpleMatrix<double>(st.in.d())); setParams(*A, st); c.log(st.name());
    std::string p = pbt::scratchDir() + "/t"; int gens = s.range(1, 3); c.nontrivial = st.L.size() > 1;
    auto data = [&] { Source d; int n = s.range(1, 7); for (int i = 0; i < n; i++) { d.xs.push_back(randRD(s, st.in, 1)); d.ls.push_back(labels[s.draw(labels.size() - 1)]); } return d; };
    auto hyper = [&] { M::Hyperparameters h; h.batch_size = s.range(1, 4); h.num_threads = 1; h.num_epochs = s.range(1, 2); h.learning_rate = s.pick({0.1, 0.5, 0.01}); return h; };
    auto fin = [&](M& m) { for (auto& l : m.layers) { for (size_t i = 0; i < l->weights.size(); i++) if (!(std::fabs(l->weights[i]) < 1e6)) return false; } return true; };
    if (s.boolean()) { Source d = data(); A->train(d, hyper()); c.label("trained before saving"); }
    for (int g = 0; g < gens; g++) {
        if (!fin(*A)) { c.label("parameters too large"); return; }
        REQUIRE(A->saveModel(p), "saveModel reports failure"); B = std::make_unique<M>(); REQUIRE(B->loadModel(p), "loadModel reports failure"); expectLoaded(*B, *A, st, true, "loaded model");
        for (size_t i = 0; i < st.L.size(); i++) { A->layers[i]->weights = B->layers[i]->weights; A->layers[i]->biases = B->layers[i]->biases; }
        Source d = data(), e = d; auto h = hyper(); A->train(d, h); B->train(e, h); REQUIRE(e.at == 0 && B->layers.size() == A->layers.size(), "training a loaded model"); if (!fin(*A)) { c.label("parameters too large"); return; }
        for (size_t i = 0; i < st.L.size(); i++) { near(B->layers[i]->weights, A->layers[i]->weights, "weights of layer " + std::to_string(i) + " of the loaded model trained further"); near(B->layers[i]->biases, A->layers[i]->biases, "biases of layer " + std::to_string(i) + " of the loaded model trained further"); }
        if (s.boolean()) std::swap(A, B); c.label("generation " + std::to_string(g + 1));
    }
}
