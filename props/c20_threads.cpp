#include "sgdref.h"
#include <thread>
#include <atomic>
#include <chrono>
using namespace my_cnn;
using Model = ModelDescription<double, std::string>;
// Deterministic-per-case schedule perturbation: each call consumes one of a list of small delays.
struct Jitter {
    std::vector<unsigned char> d; std::atomic<size_t> k{0}; size_t n = 0;
    void step() { if (n == 0) return; switch (d[k++ % n]) { case 1: std::this_thread::yield(); break; case 2: std::this_thread::sleep_for(std::chrono::microseconds(20)); break; case 3: std::this_thread::sleep_for(std::chrono::microseconds(150)); break; default: break; } }
};
// A layer that passes everything through and perturbs the schedule, inserted between the real ones.
struct Pass : ModelLayer {
    Jitter* j; explicit Pass(Jitter* jj) : j(jj) {}
    ModelFlowMode getType() const override { return UNSPECIFIED; }
    SimpleMatrix<double> propagateForward(SimpleMatrix<double>&& in, size_t) override { j->step(); return std::move(in); }
    SimpleMatrix<double> propagateBackward(const SimpleMatrix<double>&, const SimpleMatrix<double>&, const SimpleMatrix<double>& g, size_t, bool) override { j->step(); return g; }
    std::string serialize() const override { return ""; }
    bool deserialize(std::istream&) override { return true; }
};
struct Source : DataGenerator<double> {
    std::vector<RD> xs; std::vector<std::string> ls; size_t at = 0; std::vector<int> counts; Jitter* j = nullptr; std::atomic<int> busy{0}; std::atomic<bool> overlap{false}, over{false};
    LabeledInput<double> getNextDataPoint() override {
        if (busy++) overlap = true; LabeledInput<double> r; j->step();
        if (at >= xs.size()) { over = true; r.data = build(xs[0], 0); r.label = ls[0]; } else { r.data = build(xs[at], 0); r.label = ls[at]; counts[at]++; at++; }
        busy--; return r;
    }
    size_t size() override { return xs.size(); }
    bool hasAvailableData() override { return at < xs.size(); }
    void reset() override { at = 0; std::fill(counts.begin(), counts.end(), 0); }
};
// layer position of reference layer i in a model with pass-through layers
struct Threaded { Model m; std::vector<size_t> pos; };
static void make(Threaded& t, const RefStack& st, const std::vector<std::string>& labels, Jitter* j, const std::vector<bool>& where) {
    Model tmp; addLayers(tmp, st); tmp.setOutputLabels(labels); t.m.setOutputLabels(labels); auto out = t.m.layers.back(); t.m.layers.clear(); (void)out;
    for (size_t i = 0; i < tmp.layers.size(); i++) { if (where[i]) t.m.layers.push_back(std::make_shared<Pass>(j)); t.pos.push_back(t.m.layers.size()); t.m.layers.push_back(tmp.layers[i]); }
}
static void setP(Threaded& t, const RefStack& st) { for (size_t i = 0; i < st.L.size(); i++) if (st.L[i].kind == L_CONV || st.L[i].kind == L_FC) { t.m.layers[t.pos[i]]->weights = build(st.L[i].W, 0); t.m.layers[t.pos[i]]->biases = build(st.L[i].b, 0); } }
static void getP(const Threaded& t, RefStack& st) { for (size_t i = 0; i < st.L.size(); i++) if (st.L[i].kind == L_CONV || st.L[i].kind == L_FC) { st.L[i].W = toRef(t.m.layers[t.pos[i]]->weights); st.L[i].b = toRef(t.m.layers[t.pos[i]]->biases); } }
static void genJitter(Src& s, Jitter& j) { int n = s.range(0, 24); j.d.resize((size_t)n); for (auto& v : j.d) v = (unsigned char)s.range(0, 3); j.n = (size_t)n; }

PROP_ND(training, 3) {
    Src& s = c.s; StackOpts o; o.max_layers = 5; o.max_side = 6; RefStack st = genStack(s, o); auto labels = makeLabels(s, st.labels); Jitter j, none; genJitter(s, j); std::vector<bool> where; for (size_t i = 0; i < st.L.size(); i++) where.push_back(s.chance(1, 2));
    Threaded t, one; make(t, st, labels, &j, where); make(one, st, labels, &none, where); bool fresh = s.chance(2, 5);
    if (!fresh) { t.m.forwardPropagation(SimpleMatrix<double>(st.in.d())); setP(t, st); }
    int N = s.chance(1, 10) ? s.range(1, 100) : s.range(1, 24); Source a, b; std::vector<int> lab; for (int i = 0; i < N; i++) { a.xs.push_back(randRD(s, st.in, 1)); int l = (int)s.draw((uint64_t)st.labels - 1); lab.push_back(l); a.ls.push_back(labels[(size_t)l]); } b.xs = a.xs; b.ls = a.ls; a.counts.assign((size_t)N, 0); b.counts = a.counts; a.j = &j; b.j = &none;
    Model::Hyperparameters hp; hp.batch_size = s.chance(1, 10) ? s.range(1, 64) : s.range(1, 12); hp.num_threads = s.chance(1, 10) ? s.range(2, 40) : s.range(2, 8); hp.num_epochs = 1; hp.learning_rate = fresh ? 0 : s.pick({0.1, 0.5, 0.03}); c.log(st.name(), " samples ", N, " batch ", hp.batch_size, " threads ", hp.num_threads, fresh ? " fresh" : "", " jitter ", j.n);
    c.label(fresh ? "fresh model" : "warmed-up model"); c.label("threads:" + std::to_string(hp.num_threads)); c.nontrivial = N > 1 && hp.batch_size > 1;
    for (auto& l : t.m.layers) l->setBatchSize((size_t)hp.batch_size); int got = t.m.runEpoch(a, hp);
    REQUIRE(!a.overlap, "two threads used the data source at the same time"); REQUIRE(!a.over, "asked for data when none was available"); for (int i = 0; i < N; i++) REQUIRE(a.counts[(size_t)i] == 1, "sample ", i, " used ", a.counts[(size_t)i], " times");
    // the same with one thread
    RefStack st2 = st; if (fresh) getP(t, st2); one.m.forwardPropagation(SimpleMatrix<double>(st.in.d())); setP(one, st2); for (auto& l : one.m.layers) l->setBatchSize((size_t)hp.batch_size); Model::Hyperparameters h1 = hp; h1.num_threads = 1; int want = one.m.runEpoch(b, h1); RefStack r1 = st; getP(one, r1);
    for (auto& l : r1.L) for (auto v : l.W.v) if (!(std::fabs(v) < 1e6)) { c.label("diverged, skipped"); return; }
    // summation order may differ between the runs, and with it discrete choices at kinks
    bool fragile = false; RefStack chk = st2; for (auto& x : a.xs) { auto acts = chk.forward(x); if (chk.nearKink(acts, 1e-7)) fragile = true; for (auto& q : acts) for (auto v : q.v) if (!(std::fabs(v) < 1e5)) fragile = true; }
    if (!fragile && hp.learning_rate != 0) { double g = 1; RefStack r = st2; Twin tw(r); fragile = refEpoch(r, a.xs, lab, hp.batch_size, hp.learning_rate, g, a.xs.size()).fragile; refEpoch(tw.t, a.xs, lab, hp.batch_size, hp.learning_rate, g, a.xs.size()); fragile |= tw.parted(r, g); }
    if (fragile) { c.label("near a kink, skipped"); return; }
    if (hp.learning_rate == 0 || N <= hp.batch_size) { REQUIRE(got == want, "threads report ", got, " correct, one thread ", want); c.label("success count"); } else REQUIRE(std::abs(got - want) <= 1, "threads report ", got, " correct, one thread ", want);
    for (size_t i = 0; i < st.L.size(); i++) if (st.L[i].kind == L_CONV || st.L[i].kind == L_FC) {
        double sc = 1; for (auto v : r1.L[i].W.v) sc = std::max(sc, std::fabs(v)); for (auto& x : r1.L) for (auto v : x.W.v) sc = std::max(sc, std::fabs(v));
        expectNear(t.m.layers[t.pos[i]]->weights, r1.L[i].W, 1e-6 * sc, "weights after threaded training"); expectNear(t.m.layers[t.pos[i]]->biases, r1.L[i].b, 1e-6 * sc, "biases after threaded training");
    }
}
PROP_ND(inference, 2) {
    Src& s = c.s; StackOpts o; o.max_layers = 5; o.max_side = 6; RefStack st = genStack(s, o); auto labels = makeLabels(s, st.labels); Jitter j; genJitter(s, j); std::vector<bool> where; for (size_t i = 0; i < st.L.size(); i++) where.push_back(s.chance(1, 2));
    Threaded t; make(t, st, labels, &j, where); bool fresh = s.boolean(); int T = s.range(2, 6), per = s.range(1, 3); if (!fresh) { t.m.forwardPropagation(SimpleMatrix<double>(st.in.d())); setP(t, st); } for (auto& l : t.m.layers) l->setBatchSize((size_t)T);
    std::vector<RD> xs; for (int i = 0; i < T * per; i++) xs.push_back(randRD(s, st.in, 1)); c.log(st.name(), " threads ", T, " x ", per, fresh ? " fresh" : ""); c.label(fresh ? "fresh model" : "warmed-up model"); c.nontrivial = true; bool back = s.boolean(); int lab = s.range(0, st.labels - 1); if (back) c.label("with backward");
    std::vector<ModelResults<std::string>> rs(xs.size()); std::vector<std::thread> th; std::atomic<int> ready{0}; std::atomic<bool> go{false};
    for (int w = 0; w < T; w++) th.emplace_back([&, w] { ready++; while (!go) std::this_thread::yield(); for (int k = 0; k < per; k++) { size_t i = (size_t)(w * per + k); rs[i] = t.m.forwardPropagation(build(xs[i], 0), (size_t)w); if (back) t.m.backwardsPropagation(rs[i], labels[(size_t)lab], (size_t)w); } });
    while (ready < T) std::this_thread::yield(); go = true; for (auto& x : th) x.join();
    for (size_t i = 0; i < xs.size(); i++) { auto r = t.m.forwardPropagation(build(xs[i], 0), 0); REQUIRE(r.label_idx == rs[i].label_idx && r.confidence == rs[i].confidence, "input ", i, ": concurrent pass predicts ", rs[i].label_idx, "/", rs[i].confidence, " sequential ", r.label_idx, "/", r.confidence); for (size_t k = 0; k < r.layer_inputs.size(); k++) REQUIRE(refSame(toRef(r.layer_inputs[k]), toRef(rs[i].layer_inputs[k])), "recorded input ", k, " of concurrent pass ", i); }
}
