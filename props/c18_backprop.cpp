#include "modelref.h"
using namespace my_cnn;
using Model = ModelDescription<double, std::string>;
static bool smallActs(const std::vector<RD>& a) { for (auto& t : a) for (auto v : t.v) if (!(std::fabs(v) < 1e4)) return false; return true; }
PROP(gradient, 6) {
    Src& s = c.s; StackOpts o; RefStack st = genStack(s, o); auto labels = makeLabels(s, st.labels); Model m; addLayers(m, st); m.setOutputLabels(labels); int slots = s.chance(1, 20) ? s.range(1, 64) : s.range(1, 3); for (auto& l : m.layers) l->setBatchSize((size_t)slots);
    { SimpleMatrix<double> z(st.in.d()); m.forwardPropagation(z); } setParams(m, st); c.log(st.name()); int rounds = s.range(1, 3); double lr = s.pick({1.0, 0.5, 0.1});
    for (int q = 0; q < rounds; q++) {
        RD x = widen(castRef<float>(randRD(s, st.in, s.boolean() ? 1 : 0.3))); int lab = s.range(0, st.labels - 1); size_t slot = (size_t)s.range(0, slots - 1); auto acts = st.forward(x); if (!smallActs(acts) || st.nearKink(acts, 1e-6)) { c.label("near a kink or large, skipped"); return; }
        auto r = m.forwardPropagation(build(x, 0), slot); if (slots > 1 && s.boolean()) { size_t other = (slot + 1) % (size_t)slots; m.forwardPropagation(build(randRD(s, st.in, 1), 0), other); c.label("interleaved forward"); }
        m.backwardsPropagation(r, labels[(size_t)lab], slot); expectParams(m, st, 1e-12, "parameters before the batch is applied"); REQUIRE(r.true_label_idx == (size_t)lab, "true label index");
        std::vector<RD> gW, gB; st.backward(acts, lab, gW, gB); RefStack before = st; double gm = 1; for (auto& g : gW) for (auto v : g.v) gm = std::max(gm, std::fabs(v));
        for (auto& l : m.layers) l->applyBatch(lr);
        for (size_t i = 0; i < st.L.size(); i++) { RefLayer& l = st.L[i]; for (size_t k = 0; k < gW[i].v.size(); k++) l.W.v[k] -= lr * gW[i].v[k]; for (size_t k = 0; k < gB[i].v.size(); k++) l.b.v[k] -= lr * gB[i].v[k]; }
        expectParams(m, st, 1e-5 * gm, "parameters after one step"); c.nontrivial = st.L.size() > 2; for (auto& l : st.L) c.label(l.kind == L_POOL ? (l.pk == MAX ? "max pool" : l.pk == MIN ? "min pool" : "avg pool") : l.kind == L_ACT ? my_cnn::toString((ModelActivationFunction)l.act) : l.kind == L_CONV ? "conv" : l.kind == L_FC ? "fc" : "softmax"); if (st.in.x != st.in.y) c.label("non-square");
        // finite differences of the library's own forward pass, for a few parameters (independent of the reference gradients)
        if (s.chance(1, 2)) {
            Model f; addLayers(f, before); f.setOutputLabels(labels); f.forwardPropagation(build(x, 0)); setParams(f, before); double h = 1e-4; bool kink = before.nearKink(acts, 1e-2);
            auto loss = [&] { SimpleMatrix<double> a = build(x, 0); for (auto& l : f.layers) a = l->propagateForward(std::move(a), 0); return -std::log(a[(size_t)lab]); };
            std::vector<size_t> cand; for (size_t i = 0; i < before.L.size(); i++) if (before.L[i].kind == L_CONV || before.L[i].kind == L_FC) cand.push_back(i);
            for (int t = 0; t < 4 && !cand.empty() && !kink && acts.back().flat((size_t)lab) > 1e-4; t++) {
                size_t li = s.pick(cand); bool bias = s.boolean(); auto& P = bias ? f.layers[li]->biases : f.layers[li]->weights; size_t k = s.draw(P.size() - 1); double keep = P[k]; P[k] = keep + h; double up = loss(); P[k] = keep - h; double dn = loss(); P[k] = keep + 2 * h; double up2 = loss(); P[k] = keep - 2 * h; double dn2 = loss(); P[k] = keep;
                double fd = (8 * (up - dn) - (up2 - dn2)) / (12 * h), got = ((bias ? before.L[li].b : before.L[li].W).flat(k) - (bias ? m.layers[li]->biases : m.layers[li]->weights)[k]) / lr;
                REQUIRE(std::fabs(fd - got) <= 2e-3 * (1 + gm) , "layer ", li, (bias ? " bias " : " weight "), k, ": moved by ", got, " finite difference ", fd); c.label("finite difference");
            }
        }
        getParams(m, st);
    }
}
