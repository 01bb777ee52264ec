// C30: samples that cannot be processed end training with their own exception, and nothing else breaks.
#include "sgdref.h"
#include <atomic>
#include <thread>
#include <chrono>
using namespace my_cnn;
using Model = ModelDescription<double, std::string>;
struct Boom { int id; };                                             // not derived from std::exception
struct SourceError : std::runtime_error { int id; explicit SourceError(int i) : std::runtime_error("source"), id(i) {} };
enum Bad { OK, LABEL, SHAPE, THROW_OBJ, THROW_STD };
struct Source : DataGenerator<double> {
    std::vector<RD> xs; std::vector<std::string> ls; std::vector<int> bad; D3 wrong; std::string unknown; size_t at = 0, epoch = 0, from = 0, taken = 0; std::atomic<int> busy{0}; std::atomic<bool> overlap{false}, over{false}; int delay = 0;
    void pause() { if (delay == 1) std::this_thread::yield(); else if (delay == 2) std::this_thread::sleep_for(std::chrono::microseconds(50)); }
    LabeledInput<double> getNextDataPoint() override {
        struct Busy { std::atomic<int>& b; ~Busy() { b--; } } guard{busy}; if (busy++) overlap = true; pause();
        LabeledInput<double> r; if (at >= xs.size()) { over = true; r.data = build(xs[0], 0); r.label = ls[0]; return r; }
        size_t i = at++; taken++; int b = epoch >= from ? bad[i] : OK; if (b == THROW_OBJ) throw Boom{(int)i}; if (b == THROW_STD) throw SourceError((int)i);
        if (b == SHAPE) r.data = SimpleMatrix<double>(wrong.d(), 0.25); else r.data = build(xs[i], 0); r.label = b == LABEL ? unknown : ls[i]; return r;
    }
    size_t size() override { return xs.size(); }
    bool hasAvailableData() override { return at < xs.size(); }
    void reset() override { at = 0; epoch++; }
};
PROP_ND(failures, 1) {
    Src& s = c.s; StackOpts o; o.max_layers = 5; o.max_side = 6; RefStack st = genStack(s, o); auto labels = makeLabels(s, st.labels); Model m; addLayers(m, st); m.setOutputLabels(labels); m.forwardPropagation(SimpleMatrix<double>(st.in.d())); setParams(m, st);
    Source src; src.delay = s.range(0, 2); int N = s.chance(1, 10) ? s.range(1, 80) : s.range(1, 20); std::vector<int> lab; for (int i = 0; i < N; i++) { src.xs.push_back(randRD(s, st.in, 1)); int l = s.range(0, st.labels - 1); lab.push_back(l); src.ls.push_back(labels[(size_t)l]); } src.bad.assign((size_t)N, OK);
    src.wrong = st.in; switch (s.range(0, 2)) { case 0: src.wrong.z++; break; case 1: if (src.wrong.z > 1) { src.wrong.z--; break; } src.wrong.z += 2; break; default: src.wrong = D3{0, 0, 0}; }
    src.unknown = s.boolean() ? "no such label" : labels[0] + " "; if (s.chance(1, 4)) src.unknown = "";
    int nbad = s.weighted({8, 1}) ? 0 : s.chance(2, 3) ? 1 : s.range(1, std::min(N, 6)); bool one_batch = s.boolean(); size_t where = s.draw((uint64_t)N - 1);
    Model::Hyperparameters hp; hp.batch_size = s.boolean() ? s.range(1, 8) : s.range(1, std::max(1, N)); hp.num_threads = s.boolean() ? s.range(1, 4) : s.range(1, 12); hp.num_epochs = s.range(1, 3); hp.learning_rate = s.pick({0.1, 0.5, 0.03});
    for (int k = 0; k < nbad; k++) { size_t i = one_batch ? std::min((size_t)N - 1, where / (size_t)hp.batch_size * (size_t)hp.batch_size + s.draw((uint64_t)hp.batch_size - 1)) : s.draw((uint64_t)N - 1); src.bad[i] = s.range(LABEL, THROW_STD); } src.from = (size_t)s.weighted({5, 1, 1});
    bool whole = s.boolean(); c.log(st.name(), " samples ", N, " batch ", hp.batch_size, " threads ", hp.num_threads, " epochs ", hp.num_epochs, " bad"); size_t first = (size_t)N; for (int i = N - 1; i >= 0; i--) if (src.bad[(size_t)i]) first = (size_t)i; for (int i = 0; i < N; i++) if (src.bad[(size_t)i]) c.log(" ", i, ":", src.bad[(size_t)i]); c.log(" from epoch ", src.from);
    bool expect = first < (size_t)N && src.from < (size_t)hp.num_epochs; size_t B = (size_t)hp.batch_size, b0 = first / B * B, b1 = std::min((size_t)N, b0 + B); auto has = [&](int k) { for (size_t i = b0; i < b1; i++) if (src.bad[i] == k) return true; return false; };
    std::string got; int calls = 0;
    try { if (whole) m.train(src, hp); else { for (auto& l : m.layers) l->setBatchSize(B); for (int e = 0; e < hp.num_epochs; e++) { m.runEpoch(src, hp); src.reset(); calls++; } } }
    catch (const Boom& x) { got = "object"; REQUIRE(expect && (size_t)x.id >= b0 && (size_t)x.id < b1 && src.bad[(size_t)x.id] == THROW_OBJ, "the exception object of sample ", x.id, " is not from the first failing batch"); }
    catch (const SourceError& x) { got = "source error"; REQUIRE(expect && (size_t)x.id >= b0 && (size_t)x.id < b1 && src.bad[(size_t)x.id] == THROW_STD, "the exception of sample ", x.id, " is not from the first failing batch"); }
    catch (const ModelLayerException&) { got = "layer"; REQUIRE(expect && has(SHAPE), "a layer exception without an image of another shape in the first failing batch"); }
    catch (const std::exception& x) { got = "std"; REQUIRE(expect && (has(LABEL) || has(SHAPE)), "exception without reason: ", x.what()); }
    REQUIRE(!src.overlap, "two threads used the data source at the same time"); REQUIRE(!src.over, "asked for data when none was available");
    REQUIRE(expect == !got.empty(), expect ? "training went on after a sample that cannot be processed" : "training failed without a reason"); c.label(expect ? "fails: " + got : nbad ? "fails too late" : "no failure"); c.nontrivial = expect;
    if (expect) REQUIRE(src.epoch == src.from, "failed in epoch ", src.epoch, " instead of ", src.from);
    // parameters: those after the complete batches before the failing one
    double g = 1; bool fragile = false; Twin tw(st); for (size_t e = 0; e < (size_t)hp.num_epochs && !fragile; e++) { bool last = expect && e == src.from; fragile |= refEpoch(st, src.xs, lab, hp.batch_size, hp.learning_rate, g, last ? b0 : (size_t)N).fragile; refEpoch(tw.t, src.xs, lab, hp.batch_size, hp.learning_rate, g, last ? b0 : (size_t)N); if (last) break; }
    if (fragile || tw.parted(st, g)) { c.label("near a kink or large, skipped"); c.nontrivial = false; return; }
    expectParams(m, st, 1e-5 * g, expect ? "parameters after failed training" : "parameters after training"); getParams(m, st); if (expect && b0 > 0) c.label("batches before the failure");
    // the model is as usable as before
    { RD x = randRD(s, st.in, 1); auto r = m.forwardPropagation(build(x, 0)); auto acts = st.forward(x); if (!st.nearKink(acts, 1e-6)) expectNear(r.layer_inputs.back(), acts.back(), 1e-5, "prediction after failed training"); }
    std::fill(src.bad.begin(), src.bad.end(), OK); src.at = 0; src.epoch = 0; Model::Hyperparameters h2; h2.batch_size = s.boolean() ? hp.batch_size : s.range(1, 12); h2.num_threads = s.range(1, 6); h2.num_epochs = s.range(1, 2); h2.learning_rate = s.pick({0.1, 0.5, 0.03}); c.log("; again batch ", h2.batch_size, " threads ", h2.num_threads);
    m.train(src, h2); g = 1; Twin tw2(st); for (int e = 0; e < h2.num_epochs && !fragile; e++) { fragile |= refEpoch(st, src.xs, lab, h2.batch_size, h2.learning_rate, g, (size_t)N).fragile; refEpoch(tw2.t, src.xs, lab, h2.batch_size, h2.learning_rate, g, (size_t)N); } if (fragile || tw2.parted(st, g)) { c.label("second run near a kink or large, skipped"); return; }
    expectParams(m, st, 1e-5 * g, "parameters after training again");
}
