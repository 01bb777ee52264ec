#include "modelref.h"
using namespace my_cnn;
template<class In> static Ref<In> genInput(Src& s, D3 d) { return std::is_floating_point_v<In> ? castRef<In>(randRD(s, d, s.boolean() ? 1 : 4)) : genRef<In>(s, d, Vc::Ints); }
static size_t firstMax(const SimpleMatrix<double>& m) { size_t b = 0; for (size_t i = 1; i < m.size(); i++) if (m[i] > m[b]) b = i; return b; }
template<class R> static void sameResult(const R& a, const R& b) {
    REQUIRE(a.label_idx == b.label_idx, "label index"); REQUIRE(a.confidence == b.confidence, "confidence ", a.confidence, " then ", b.confidence); REQUIRE(a.layer_inputs.size() == b.layer_inputs.size());
    for (size_t i = 0; i < a.layer_inputs.size(); i++) { REQUIRE(refSame(toRef(a.layer_inputs[i]), toRef(b.layer_inputs[i])), "recorded input of layer ", i, " differs between two passes of the same input"); }
}
template<class In, class Lab> static void inference(Ctx& c, std::vector<Lab> (*mk)(Src&, int), Lab unknown) {
    Src& s = c.s; StackOpts o; o.softmax = s.chance(3, 4); RefStack st = genStack(s, o); std::vector<Lab> labels = mk(s, st.labels); ModelDescription<In, Lab> m; addLayers(m, st); m.setOutputLabels(labels, o.softmax ? SOFTMAX : UNSPECIFIED_OUTPUT);
    c.log(st.name()); c.label("layers:" + std::to_string(st.L.size())); c.label(o.softmax ? "softmax" : "no output function"); c.nontrivial = st.L.size() > 2; int slots = s.chance(1, 20) ? s.range(1, 64) : s.range(1, 4);
    REQUIRE(m.layers.size() == st.L.size(), "layer count"); static const ModelFlowMode types[] = {KERNEL, POOLING, ACTIVATION, FULLY_CONNECTED, OUTPUT}; for (size_t i = 0; i < st.L.size(); i++) REQUIRE(m.layers[i]->getType() == types[st.L[i].kind], "layer ", i, " is not the one added");
    if (slots > 1 || s.boolean()) for (auto& l : m.layers) l->setBatchSize((size_t)slots);
    { auto r0 = m.forwardPropagation(SimpleMatrix<In>(st.in.d())); (void)r0; } if (s.boolean()) setParams(m, st); else getParams(m, st);
    std::vector<Ref<In>> xs; std::vector<ModelResults<Lab>> rs; int steps = s.range(1, 6);
    for (int q = 0; q < steps; q++) {
        bool again = !xs.empty() && s.chance(1, 2); size_t k = again ? s.draw(xs.size() - 1) : xs.size(); if (!again) xs.push_back(genInput<In>(s, st.in)); SimpleMatrix<In> I = build(xs[k], 0); size_t slot = (size_t)s.range(0, slots - 1);
        ModelResults<Lab> r = m.forwardPropagation(I, slot); expectEq(I, xs[k], "the caller's input"); expectParams(m, st, 0, "parameters after inference");
        if (again) { sameResult(rs[k], r); c.label("repeated"); } else rs.push_back(r);
        // the composition of the layers
        RD x = widen(xs[k]); SimpleMatrix<double> a = build(x, 0); REQUIRE(r.layer_inputs.size() == m.layers.size() + 1, "recorded ", r.layer_inputs.size(), " matrices");
        auto rec = [&](size_t i) { RD e = toRef(a); expectNear(r.layer_inputs[i], e, [&](int x, int y, int z) { return 1e-6 * std::fabs(e.at(x, y, z)) + 1e-37; }, "recorded layer input"); };
        rec(0); for (size_t i = 0; i < m.layers.size(); i++) { a = m.layers[i]->propagateForward(SimpleMatrix<double>(a), slot); rec(i + 1); }
        REQUIRE(r.label_idx == firstMax(a), "predicted ", r.label_idx, " expected ", firstMax(a)); REQUIRE(r.confidence == (float)a[firstMax(a)], "confidence ", r.confidence, " expected ", a[firstMax(a)]);
        // and that of the reference layers
        auto acts = st.forward(x); if (!st.nearKink(acts, 1e-9)) { double mm = 1; for (auto& t : acts) for (auto v : t.v) mm = std::max(mm, std::fabs(v)); expectNear(a, acts.back(), 1e-6 * mm, "model output"); }
        if (o.softmax) {
            int li = s.range(0, st.labels - 1); size_t first = (size_t)(std::find(labels.begin(), labels.end(), labels[(size_t)li]) - labels.begin()); m.assignLoss(r, labels[(size_t)li]); double p = a[first]; double want = std::max(0.0, -std::log2(p + 1e-5));
            REQUIRE(r.true_label_idx == first, "true label index ", r.true_label_idx); REQUIRE(r.true_label && *r.true_label == labels[(size_t)li], "true label"); REQUIRE(std::fabs(r.loss - want) <= 2e-4 + 1e-5 * want, "loss ", r.loss, " expected ", want, " for p=", p); REQUIRE(std::fabs(m.lossFcn(a, first) - want) <= 1e-5 * (1 + want), "lossFcn");
            c.label(want == 0 ? "loss 0" : want > 10 ? "loss > 10" : "loss between");
            if (s.chance(1, 3)) { ModelResults<Lab> r2 = r; REQUIRE(pbt::throwsAny([&] { m.assignLoss(r2, unknown); }), "unknown label accepted"); c.label("unknown label"); }
        }
    }
}
static std::vector<std::string> strs(Src& s, int n) { return makeLabels(s, n); }
static std::vector<int> ints(Src& s, int n) { std::vector<int> v; int k = s.range(-5, 5); for (int i = 0; i < n; i++) v.push_back(k - i * 3); return v; }
PROP(double_strings, 3) { inference<double, std::string>(c, strs, "no such label"); }
PROP(float_strings, 2) { inference<float, std::string>(c, strs, ""); }
PROP(bytes_ints, 2) { inference<unsigned char, int>(c, ints, 1000); }
PROP(int_strings, 1) { inference<int, std::string>(c, strs, "0 "); }
