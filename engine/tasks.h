// Pieces of work on objects of their own, for checks which run them side by side (C34) or over and over (C35).
#pragma once
#include "modelfile.h"
#include "cnn_from_scratch/MNISTReader.h"
#include "cnn_from_scratch/Serialization.h"
#include <functional>
#include <iomanip>
using namespace my_cnn;
// Everything a task observed, bit by bit
struct Log {
    std::string t;
    template<class T> void num(T v) { static_assert(std::is_arithmetic_v<T> || std::is_enum_v<T>); t.append((const char*)&v, sizeof v); }
    void text(const std::string& s) { num(s.size()); t += s; }
    template<class M> void mat(const M& m) { D3 d = fromDim(m.dim()); num(d.x); num(d.y); num(d.z); for (int z = 0; z < d.z; z++) for (int y = 0; y < d.y; y++) for (int x = 0; x < d.x; x++) num(m(dim3(x, y, z))); }
    void pos(const dim3& d) { num((int)d.x); num((int)d.y); num((int)d.z); }
    template<class F> void tryIt(F f) { try { f(); } catch (const std::exception& e) { text(std::string("refused: ") + e.what()); } }
};
struct Task { std::string name; std::function<void(Log&)> run; };
static std::string image(uint32_t v) { return {(char)(v >> 24), (char)(v >> 16), (char)(v >> 8), (char)v}; }

// one step on matrices a, b, of the same shape; only reads them
template<class T> void readStep(Log& o, int op, const SimpleMatrix<T>& a, const SimpleMatrix<T>& b, uint64_t r) {
    D3 d = fromDim(a.dim()); auto at = [&](int n, int k) { return n ? (int)((r >> k) % (uint64_t)n) : 0; }; int x = at(d.x, 0), y = at(d.y, 8), z = at(d.z, 16);
    switch (op) {
        case 0: o.mat(a + b); break;
        case 1: o.mat(a * T(3) - b); break;
        case 2: { SimpleMatrix<T> m = T(2) * (a + b); o.mat(m); break; }
        case 3: { SimpleMatrix<T> m = transpose(a); o.mat(m); o.mat(matrixMultiply(a, m)); break; }
        case 4: o.tryIt([&] { SimpleMatrix<T> m = rotate<1>(a); o.mat(m); }); o.tryIt([&] { o.mat(rotate<2>(a)); }); break;
        case 5: o.mat(SimpleMatrix<T>(convolve(a.slice(z), b.slice(z), dim2(1, 1)))); o.mat(SimpleMatrix<T>(convolve(a.subMatCopy({0, 0, (uint32_t)z}, {(uint32_t)d.x, (uint32_t)d.y, 1}), b.subMatView({0, 0, (uint32_t)z}, dim3(x + 1, y + 1, 1)), dim2(1 + at(3, 24), 1 + at(3, 32))))); break;
        case 6: o.num(sum(a)); o.num(max(a)); o.num(min(a)); o.pos(maxIndex(a)); o.pos(minIndex(a)); o.num(a.maxIndex()); o.num(a.minIndex()); o.num(mean(a)); o.mat(a.abs()); break;
        case 7: { auto v = a.subMatView({(uint32_t)x, (uint32_t)y, (uint32_t)z}, {(uint32_t)(d.x - x), (uint32_t)(d.y - y), (uint32_t)(d.z - z)}); o.mat(v); o.mat(SimpleMatrix<T>(v + v)); o.mat(a.slice(z)); o.mat(a.subMatCopy({0, 0, (uint32_t)z}, {(uint32_t)d.x, (uint32_t)d.y, 1})); break; }
        case 8: { SimpleMatrix<T> m(a); m += b; m *= T(2); m.subMatView({0, 0, 0}, {(uint32_t)x + 1, (uint32_t)y + 1, (uint32_t)z + 1}) = b.subMatView({0, 0, 0}, {(uint32_t)x + 1, (uint32_t)y + 1, (uint32_t)z + 1}); o.mat(m); break; }
        case 9: { SimpleMatrix<double> m(a); o.mat(m); o.mat(apply(m, [](double v) { return v * 0.5; })); o.mat(exp(m)); break; }
        case 10: { std::ostringstream s; a.serialize(s); o.text(s.str()); std::istringstream in(s.str()); SimpleMatrix<T> m; o.num(m.deserialize(in)); o.mat(m); break; }
        case 11: { std::ostringstream s; s << std::setprecision(4) << a << (a + b); o.text(s.str()); break; }
        case 12: for (auto it = a.begin(); it != a.end(); ++it) o.num(*it); o.mat(a == b); o.mat(a < b); o.num(matrixEqual(a, b)); o.tryIt([&] { o.num(dot(a, b)); }); break;
        default: o.tryIt([&] { SimpleMatrix<T> m(dim3(d.x + 1, d.y + 2, d.z)); o.mat(a + m); }); o.tryIt([&] { o.mat(matrixMultiply(a, SimpleMatrix<T>(dim3(d.y + 1, 2, 1)))); });
    }
}
template<class T> Task matrixTask(Src& s) {
    D3 d = s.chance(1, 12) ? D3{s.range(20, 60), s.range(20, 60), s.range(1, 2)} : genDim(s, Sz::Tiny); Ref<T> A = genRef<T>(s, d, Vc::Ints), B = genRef<T>(s, d, Vc::Ints); struct St { int op; uint64_t r; }; std::vector<St> st; int n = s.range(1, 8);
    for (int i = 0; i < n; i++) st.push_back({s.range(0, 13), s.draw(0xFFFFFFFF)});
    std::ostringstream nm; nm << "matrices of " << d << ":"; for (auto& q : st) nm << " " << q.op;
    return {nm.str(), [=](Log& o) { SimpleMatrix<T> a = build(A, 0), b = build(B, 0); for (auto& q : st) { o.tryIt([&] { readStep<T>(o, q.op, a, b, q.r); }); if (q.r % 3 == 0) { a += b; o.mat(a); } if (q.r % 5 == 0) { b(0, 0, 0) = a(0, 0, 0); } } }};
}
static Task layerTask(Src& s) {
    StackOpts op; op.max_layers = 4; op.max_side = 7; RefStack st = genStack(s, op); size_t which = s.draw(st.L.size() - 1); RefLayer l = st.L[which]; D3 d = st.in; for (size_t i = 0; i < which; i++) d = st.L[i].outDim(d);
    int slots = s.range(1, 3), n = s.range(1, 4); std::vector<RD> X, G; for (int i = 0; i < n; i++) { X.push_back(randRD(s, d, 2)); G.push_back(randRD(s, l.outDim(d), 1)); } bool last = s.boolean(), bad = s.chance(1, 5);
    return {"layer " + l.name(), [=](Log& o) {
        auto L = makeLayer(l); L->setBatchSize((size_t)slots); L->propagateForward(SimpleMatrix<double>(d.d(), 0.5), 0); bool par = l.kind == L_CONV || l.kind == L_FC; if (par) { L->weights = build(l.W, 0); L->biases = build(l.b, 0); }
        for (int i = 0; i < n; i++) {
            size_t k = (size_t)(i % slots); auto y = L->propagateForward(build(X[(size_t)i], 0), k); o.mat(y); if (l.kind == L_SOFTMAX) continue;
            o.mat(L->propagateBackward(build(X[(size_t)i], 0), y, build(G[(size_t)i], 0), k, last)); if (i % 2) { L->applyBatch(0.25); if (par) { o.mat(L->weights); o.mat(L->biases); } }
        }
        std::string t = L->serialize(); o.text(t); std::istringstream is(t); auto M = makeLayer(l); o.num(M->deserialize(is)); o.text(M->serialize());
        if (bad) o.tryIt([&] { o.mat(L->propagateForward(SimpleMatrix<double>(dim3(d.x + 1, d.y + 1, d.z + 1)), 0)); });
    }};
}
static Task modelTask(Src& s, int id) {
    StackOpts op; op.max_layers = 4; op.max_side = 6; RefStack st = genStack(s, op); auto labels = makeLabels(s, st.labels); int slots = s.range(1, 3), n = s.range(1, 4); std::vector<RD> X; std::vector<int> lab; for (int i = 0; i < n; i++) { X.push_back(randRD(s, st.in, 1)); lab.push_back(s.range(0, st.labels - 1)); }
    bool file = s.boolean(), damaged = file && s.chance(1, 4), unknown = s.chance(1, 5); std::string path = pbt::scratchDir() + "/m" + std::to_string(id);
    return {"model " + st.name() + (file ? " with file" : ""), [=](Log& o) {
        using Model = ModelDescription<double, std::string>; Model m; addLayers(m, st); m.setOutputLabels(labels); for (auto& l : m.layers) l->setBatchSize((size_t)slots); m.forwardPropagation(SimpleMatrix<double>(st.in.d(), 0.5)); setParams(m, st);
        auto use = [&](Model& q) { for (int i = 0; i < n; i++) {
            size_t k = (size_t)(i % slots); auto r = q.forwardPropagation(build(X[(size_t)i], 0), k); o.num(r.label_idx); o.num(r.confidence); for (auto& t : r.layer_inputs) o.mat(t); if (unknown) o.tryIt([&] { q.assignLoss(r, "none of the labels"); o.text("accepted"); });
            q.backwardsPropagation(r, labels[(size_t)lab[(size_t)i]], k); o.num(r.loss); if (k + 1 == (size_t)slots || i + 1 == n) for (auto& l : q.layers) l->applyBatch(0.2);
        } };
        use(m); for (auto& l : m.layers) { o.text(l->name); o.text(l->serialize()); }
        if (!file) return;
        o.num(m.saveModel(path)); std::string t = slurp(path); o.text(t); if (damaged) spit(path, t.substr(0, t.size() / 2)); Model b; bool ok = b.loadModel(path); o.num(ok); if (!ok) return; for (auto& l : b.layers) { o.text(l->name); o.text(l->serialize()); } for (auto& x : b.output_labels) o.text(x); for (auto& l : b.layers) l->setBatchSize((size_t)slots); use(b);
    }};
}
static Task readerTask(Src& s, int id) {
    int n = s.range(1, 8), h = s.range(1, 9), w = s.range(1, 9); uint64_t seed = s.draw(0xFFFFFF); std::vector<int> at; int k = s.range(1, 12); for (int i = 0; i < k; i++) at.push_back(s.range(0, n)); std::string a = pbt::scratchDir() + "/i" + std::to_string(id), b = pbt::scratchDir() + "/l" + std::to_string(id); bool cut = s.chance(1, 5);
    std::string I = image(2051) + image((uint32_t)n) + image((uint32_t)h) + image((uint32_t)w), L = image(2049) + image((uint32_t)n); Bulk g(seed); for (int i = 0; i < n * h * w; i++) I += (char)g.below(256); for (int i = 0; i < n; i++) L += (char)g.below(10); if (cut) I.resize(I.size() - 1);
    return {"reader of " + std::to_string(n), [=](Log& o) { spit(a, I); spit(b, L); MNISTReader r(a, b); o.num(r.numImages()); for (int i : at) o.tryIt([&] { auto im = i == n ? r.nextImage() : r.getImage((size_t)i); o.num(im.label); o.mat(im.data); o.num(r.imageIndex()); }); }};
}
static Task fieldTask(Src& s) {
    int n = s.range(1, 10); uint64_t seed = s.draw(0xFFFFFF);
    return {"fields", [=](Log& o) {
        Bulk g(seed); std::stringstream f; for (int i = 0; i < n; i++) { serialization::place(f, (int)g.below(100000), "field " + std::to_string(i)); serialization::place(f, (double)g.below(1000) / 8, "x"); f << "word\n"; } o.text(f.str());
        for (int i = 0; i < n; i++) { o.text(serialization::readLine(f)); o.num(serialization::expect<int>(f, "field " + std::to_string(i))); if (i % 3 == 2) serialization::clearLine(f); else o.num(serialization::expect<double>(f, "x")); serialization::expect<void>(f, "word"); }
        for (int i = 0; i < 5; i++) { std::string t = toString((ModelActivationFunction)i); o.text(t); o.num((int)fromString(t)); } o.tryIt([&] { o.num((int)fromString("Reluu")); }); o.tryIt([&] { std::istringstream e("y 3\n"); o.num(serialization::expect<int>(e, "x")); });
    }};
}
static Task genTask(Src& s, int id) {
    switch (s.weighted({4, 4, 5, 2, 1})) {
        case 0: switch (s.range(0, 3)) { case 0: return matrixTask<double>(s); case 1: return matrixTask<float>(s); case 2: return matrixTask<int>(s); default: return matrixTask<long>(s); }
        case 1: return layerTask(s); case 2: return modelTask(s, id); case 3: return readerTask(s, id); default: return fieldTask(s);
    }
}
