// Building library models from reference stacks.
#pragma once
#include "nnref.h"
#include "cnn_from_scratch/ModelDescription.h"

template<class In, class Lab> struct Built { my_cnn::ModelDescription<In, Lab> m; std::vector<Lab> labels; };
inline std::vector<std::string> makeLabels(Src& s, int n) {
    std::vector<std::string> v; int style = (int)s.weighted({3, 1, 1});
    for (int i = 0; i < n; i++) v.push_back(style == 0 ? std::to_string(i) : style == 1 ? "label " + std::to_string(i * 7 % 11) + " of " + std::to_string(i) : std::string(1, (char)('a' + (n - i) % 26)) + std::to_string(i));
    return v;
}
template<class M> void addLayers(M& m, const RefStack& st) {
    for (auto& l : st.L) switch (l.kind) {
        case L_CONV: m.addKernel(l.fd.d(), (size_t)l.nf); break;
        case L_POOL: m.addPooling(dim2(l.wx, l.wy), dim2(l.sx, l.sy), (my_cnn::PoolingType)l.pk); break;
        case L_ACT: m.addActivation((my_cnn::ModelActivationFunction)l.act); break;
        case L_FC: m.addConnectedLayer((size_t)l.nout); break;
        default: break;
    }
}
// give the layers the reference's parameters; the model must have seen one input
template<class M> void setParams(M& m, const RefStack& st) {
    for (size_t i = 0; i < st.L.size(); i++) if (st.L[i].kind == L_CONV || st.L[i].kind == L_FC) { m.layers[i]->weights = build(st.L[i].W, 0); m.layers[i]->biases = build(st.L[i].b, 0); }
}
template<class M> void getParams(const M& m, RefStack& st) {
    for (size_t i = 0; i < st.L.size(); i++) if (st.L[i].kind == L_CONV || st.L[i].kind == L_FC) { st.L[i].W = toRef(m.layers[i]->weights); st.L[i].b = toRef(m.layers[i]->biases); }
}
template<class M> void expectParams(const M& m, const RefStack& st, double tol, const char* what) {
    for (size_t i = 0; i < st.L.size(); i++) if (st.L[i].kind == L_CONV || st.L[i].kind == L_FC) {
        const RefLayer& l = st.L[i]; std::string w = std::string(what) + ": weights of layer " + std::to_string(i) + " " + l.name(), b = std::string(what) + ": biases of layer " + std::to_string(i) + " " + l.name();
        expectNear(m.layers[i]->weights, l.W, [&](int x, int y, int z) { return tol * (1 + std::fabs(l.W.at(x, y, z))); }, w.c_str());
        expectNear(m.layers[i]->biases, l.b, [&](int x, int y, int z) { return tol * (1 + std::fabs(l.b.at(x, y, z))); }, b.c_str());
    }
}
template<class T> Ref<T> castRef(const RD& r) { Ref<T> o(r.d); for (size_t i = 0; i < r.v.size(); i++) o.v[i] = (T)r.v[i]; return o; }
template<class T> RD widen(const Ref<T>& r) { RD o(r.d); for (size_t i = 0; i < r.v.size(); i++) o.v[i] = (double)r.v[i]; return o; }
