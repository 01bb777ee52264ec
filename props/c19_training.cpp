#include "sgdref.h"
using namespace my_cnn;
using Model = ModelDescription<double, std::string>;
template<class In> struct SourceOf : DataGenerator<In> {
    std::vector<RD> xs; std::vector<std::string> ls; size_t at = 0, resets = 0, taken = 0; std::vector<size_t> counts; bool over = false;
    LabeledInput<In> getNextDataPoint() override { LabeledInput<In> r; if (at >= xs.size()) { over = true; r.data = build(castRef<In>(xs[0]), 0); r.label = ls[0]; return r; } r.data = build(castRef<In>(xs[at]), 0); r.label = ls[at]; counts[at]++; at++; taken++; return r; }
    size_t size() override { return xs.size(); }
    bool hasAvailableData() override { return at < xs.size(); }
    void reset() override { at = 0; resets++; }
};
// inputs as the model's input type represents them
template<class In> RD inputRD(Src& s, D3 d) { if (std::is_unsigned_v<In>) { RD r = randRD(s, d, 2.9); for (auto& v : r.v) v = std::floor(std::fabs(v)); return r; } return std::is_integral_v<In> ? widen(castRef<In>(randRD(s, d, 2.9))) : widen(castRef<In>(randRD(s, d, 1))); }
template<class In> void sgd(Ctx& c) {
    using Model = ModelDescription<In, std::string>; Src& s = c.s; StackOpts o; o.max_layers = 5; o.max_side = 7; RefStack st = genStack(s, o); auto labels = makeLabels(s, st.labels); Model m; addLayers(m, st); m.setOutputLabels(labels); bool fresh = s.chance(1, 4);
    if (!fresh) { m.forwardPropagation(SimpleMatrix<In>(st.in.d())); setParams(m, st); }
    SourceOf<In> src; int N = (int)s.weighted({1, 6, 3}); N = N == 0 ? 0 : N == 1 ? s.range(1, 9) : s.range(1, s.chance(1, 10) ? 200 : 30); std::vector<int> lab; for (int i = 0; i < N; i++) { src.xs.push_back(inputRD<In>(s, st.in)); int l = s.range(0, st.labels - 1); lab.push_back(l); src.ls.push_back(labels[(size_t)l]); } src.counts.assign((size_t)N, 0);
    int rounds = s.range(1, 2); c.log(st.name(), " samples ", N, fresh ? " fresh" : "");
    for (int r = 0; r < rounds; r++) {
        typename Model::Hyperparameters hp; hp.batch_size = s.boolean() ? s.range(1, 12) : s.range(1, std::max(1, N)); hp.num_threads = s.boolean() ? s.range(1, 4) : s.range(1, 12); hp.num_epochs = s.range(1, s.chance(1, 10) ? 6 : 2); hp.learning_rate = s.pick({0.1, 0.5, 0.03, 0.01}); bool whole = s.boolean();
        if (fresh && r == 0) { hp.learning_rate = 0; c.label("fresh model"); }
        c.log("; ", whole ? "train" : "epochs", " batch ", hp.batch_size, " threads ", hp.num_threads, " epochs ", hp.num_epochs, " lr ", hp.learning_rate); c.label(N == 0 ? "no data" : N < hp.batch_size ? "N < batch" : N % hp.batch_size ? "remainder" : "multiple"); c.label(hp.num_threads == 1 ? "1 thread" : hp.num_threads > hp.batch_size ? "threads > batch" : "several threads");
        std::fill(src.counts.begin(), src.counts.end(), 0); src.taken = 0; src.resets = 0; bool fragile = false; double g = 1; std::vector<int> got;
        if (whole) { m.train(src, hp); REQUIRE(src.resets == (size_t)hp.num_epochs, "reset ", src.resets, " times in ", hp.num_epochs, " epochs"); }
        else { for (auto& l : m.layers) l->setBatchSize((size_t)hp.batch_size); for (int e = 0; e < hp.num_epochs; e++) { got.push_back(m.runEpoch(src, hp)); src.reset(); } }
        REQUIRE(!src.over, "asked for data when none was available"); for (size_t i = 0; i < src.counts.size(); i++) REQUIRE(src.counts[i] == (size_t)hp.num_epochs, "sample ", i, " used ", src.counts[i], " times in ", hp.num_epochs, " epochs");
        if (fresh && r == 0) { if (N == 0) return; getParams(m, st); }
        Twin tw(st); for (int e = 0; e < hp.num_epochs; e++) {
            RefRun rr = refEpoch(st, src.xs, lab, hp.batch_size, hp.learning_rate, g, src.xs.size()); fragile |= rr.fragile; refEpoch(tw.t, src.xs, lab, hp.batch_size, hp.learning_rate, g, src.xs.size()); if (fragile = fragile || tw.parted(st, g)) break;
            if (!whole) { REQUIRE(got[(size_t)e] >= rr.lo && got[(size_t)e] <= rr.hi, "epoch ", e, " reports ", got[(size_t)e], " correct, expected ", rr.hi); c.label("success count"); }
        }
        if (fragile) { c.label("near a kink, large or unstable, skipped"); return; }
        expectParams(m, st, 1e-5 * g, "parameters after training"); getParams(m, st); c.nontrivial |= N > 1 && st.L.size() > 1;
    }
}
PROP(sgd, 14) { switch (c.s.weighted({5, 3, 1, 1})) { case 0: sgd<double>(c); break; case 1: c.label("float inputs"); sgd<float>(c); break; case 2: c.label("int inputs"); sgd<int>(c); break; default: c.label("byte inputs"); sgd<unsigned char>(c); } }
// hyperparameters left at their defaults: one epoch, batches of one, one thread, no learning
PROP(defaults, 1) {
    Src& s = c.s; StackOpts o; o.max_layers = 3; o.max_side = 5; o.big = false; RefStack st = genStack(s, o); auto labels = makeLabels(s, st.labels); Model m; addLayers(m, st); m.setOutputLabels(labels); m.forwardPropagation(SimpleMatrix<double>(st.in.d())); setParams(m, st);
    SourceOf<double> src; int N = s.range(0, 5); std::vector<int> lab; for (int i = 0; i < N; i++) { src.xs.push_back(randRD(s, st.in, 1)); int l = s.range(0, st.labels - 1); lab.push_back(l); src.ls.push_back(labels[(size_t)l]); } src.counts.assign((size_t)N, 0);
    Model::Hyperparameters hp; double lr = 0; int B = 1, E = 1; c.log(st.name(), " samples ", N); c.label("defaults"); c.nontrivial = N > 1;
    if (s.boolean()) hp.learning_rate = lr = 0.1; if (s.boolean()) hp.batch_size = B = s.range(1, 4); if (s.boolean()) hp.num_threads = s.range(1, 3); if (s.boolean()) hp.num_epochs = E = s.range(1, 2);
    m.train(src, hp); REQUIRE(src.resets == (size_t)E, "reset ", src.resets, " times in ", E, " epochs"); for (size_t i = 0; i < src.counts.size(); i++) REQUIRE(src.counts[i] == (size_t)E, "sample ", i, " used ", src.counts[i], " times in ", E, " epochs");
    double g = 1; bool fragile = false; Twin tw(st); for (int e = 0; e < E && !fragile; e++) { fragile |= refEpoch(st, src.xs, lab, B, lr, g, src.xs.size()).fragile; refEpoch(tw.t, src.xs, lab, B, lr, g, src.xs.size()); } if (fragile || tw.parted(st, g)) { c.label("near a kink or large, skipped"); return; }
    expectParams(m, st, 1e-5 * g, "parameters after training");
}
// a data source of more samples than single precision can count
struct Endless : DataGenerator<double> {
    size_t n, at = 0, resets = 0; bool over = false; SimpleMatrix<double> x{dim3(1, 1, 1), 1.0};
    LabeledInput<double> getNextDataPoint() override { over |= at >= n; at++; return {x, "a"}; }
    size_t size() override { return n; }
    bool hasAvailableData() override { return at < n; }
    void reset() override { resets++; }
};
#if defined(__SANITIZE_ADDRESS__) || defined(PBT_LIBFUZZER)
static const bool slow = true;
#else
static const bool slow = false;
#endif
PROP(huge, 1) {
    Src& s = c.s; Model m; m.setOutputLabels({"a"}); Endless src; Model::Hyperparameters hp; bool huge = !slow && pbt::g_tier && s.chance(1, 1500); src.n = huge ? ((size_t)1 << 24) + (size_t)s.range(1, 3) : (size_t)s.range(0, 3000);
    hp.batch_size = huge ? 1 << s.range(9, 13) : s.range(1, 700); hp.num_threads = huge ? s.range(1, 2) : s.range(1, 40); hp.learning_rate = 0.1; c.log(src.n, " samples, batch ", hp.batch_size, " threads ", hp.num_threads); c.nontrivial = src.n > (size_t)hp.batch_size; if (huge) c.label("more than 2^24 samples");
    for (auto& l : m.layers) l->setBatchSize((size_t)hp.batch_size); int got = m.runEpoch(src, hp); REQUIRE(!src.over && src.at == src.n, src.at, " of ", src.n, " samples used"); REQUIRE((size_t)got == src.n, "epoch reports ", got, " correct of ", src.n);
}
