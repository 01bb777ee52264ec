#include "nnref.h"
#include <atomic>
#include <cstdlib>
using namespace my_cnn;
// The C library's generator, replaced: the library's own draws (it reads rand()) become adversarial sequences in half of the cases.
static std::atomic<int> rmode{0}; static std::atomic<uint64_t> rstate{1};
extern "C" void srand(unsigned) noexcept {}
extern "C" int rand(void) noexcept {
    uint64_t k = rstate.fetch_add(0x9E3779B97F4A7C15ull), z = (k ^ (k >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31; int r = (int)(z & 0x7FFFFFFF);
    switch (rmode.load()) {
    case 1: return 0; case 2: return RAND_MAX; case 3: return r & 1 ? 0 : RAND_MAX; case 4: return RAND_MAX / 2 + (r & 1); case 5: return RAND_MAX / 2; case 6: return r & 7 ? RAND_MAX / 2 + (r & 1) : r; case 7: return r % 5; case 8: return RAND_MAX - r % 5;
    default: return r; }
}
static void draws(Ctx& c) { Src& s = c.s; int m = s.boolean() ? s.range(1, 8) : 0; rstate = s.draw(0xFFFFFFFF); rmode = m; if (m) c.label("adversarial draws"); c.log("draws of kind ", m); }
static void group(const SimpleMatrix<double>& m, const char* what) { double t = 0; for (size_t i = 0; i < m.size(); i++) { REQUIRE(std::isfinite(m[i]), what, " ", i, " is ", m[i]); t += m[i] * m[i]; } REQUIRE(std::fabs(std::sqrt(t) - 1) < 1e-9, what, " have norm ", std::sqrt(t)); }
static void finite(const SimpleMatrix<double>& m, const char* what) { for (size_t i = 0; i < m.size(); i++) REQUIRE(std::isfinite(m[i]), what, " ", i, " is ", m[i]); }
PROP_ND(kernel, 4) {
    Src& s = c.s; draws(c); D3 fd = s.chance(1, 10) ? D3{s.range(1, 12), s.range(1, 12), s.range(1, 12)} : D3{s.range(1, 4), s.range(1, 4), s.range(1, 3)}; int nf = s.chance(1, 10) ? s.range(1, 40) : s.range(1, 5); if (s.chance(1, 30)) { nf = s.range(1, 600); fd.x = std::min(fd.x, 3); fd.y = std::min(fd.y, 3); fd.z = std::min(fd.z, 3); } c.log("convolution ", fd, "x", nf); c.label("convolution"); c.nontrivial = fd.size() * nf > 1;
    Kernel K(fd.d(), (unsigned)nf, (unsigned)s.range(1, 2)); REQUIRE(fromDim(K.weights.dim()) == (D3{fd.x, fd.y, fd.z * nf}), fromDim(K.weights.dim())); REQUIRE(fromDim(K.biases.dim()) == (D3{nf, 1, 1}), fromDim(K.biases.dim())); REQUIRE((int)K.num_filters == nf); group(K.weights, "weights"); group(K.biases, "biases");
}
PROP_ND(connected, 4) {
    Src& s = c.s; draws(c); int n = s.chance(1, 10) ? s.range(1, 100) : s.range(1, 6); if (s.chance(1, 30)) n = s.range(1, 1500); D3 d = genDim(s, s.chance(1, 6) ? Sz::Normal : Sz::Tiny); c.log("fully connected ", n, " on ", d); c.label("fully connected"); c.nontrivial = n * d.size() > 1;
    ConnectedLayer L((unsigned)n); REQUIRE(fromDim(L.biases.dim()) == (D3{n, 1, 1})); RD X = genRef<double>(s, d, Vc::Reals); finite(L.propagateForward(build(X, 0)), "output"); REQUIRE(fromDim(L.weights.dim()) == (D3{n, (int)d.size(), 1}), fromDim(L.weights.dim())); REQUIRE(fromDim(L.biases.dim()) == (D3{n, 1, 1}), fromDim(L.biases.dim())); group(L.weights, "weights"); group(L.biases, "biases");
}
PROP_ND(fresh_stack, 4) {
    Src& s = c.s; draws(c); RefStack st = genStack(s); c.log(st.name()); c.label("stack"); c.nontrivial = st.L.size() > 2; std::vector<std::shared_ptr<ModelLayer>> L;
    for (auto& l : st.L) L.push_back(makeLayer(l));
    for (auto& l : L) l->setBatchSize(1);
    std::vector<SimpleMatrix<double>> a{build(genRef<double>(s, st.in, Vc::Reals), 0)}; for (auto& l : L) { a.push_back(l->propagateForward(SimpleMatrix<double>(a.back()), 0)); finite(a.back(), "activation"); }
    for (size_t i = 0; i < L.size(); i++) if (st.L[i].kind == L_CONV || st.L[i].kind == L_FC) { group(L[i]->weights, "weights"); group(L[i]->biases, "biases"); }
    auto* S = dynamic_cast<Softmax*>(L.back().get()); SimpleMatrix<double> g = S->getdLdX(a.back(), s.draw((uint64_t)st.labels - 1)); for (int i = (int)L.size() - 2; i >= 0; i--) { g = L[(size_t)i]->propagateBackward(a[(size_t)i], a[(size_t)i + 1], g, 0, false); finite(g, "gradient"); }
    for (auto& l : L) { l->applyBatch(0.1); finite(l->weights, "weight after the update"); finite(l->biases, "bias after the update"); }
}
