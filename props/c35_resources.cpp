// C35: work gives back the memory, files and threads it took, and does not need more each time it is repeated.
#include "tasks.h"
#include <atomic>
#include <thread>
#include <chrono>
#include <new>
#include <dirent.h>
// Every allocation carries its size in front
static std::atomic<long> g_bytes{0}, g_blocks{0};
static void* take(size_t n) { char* p = (char*)malloc(n + 16); if (!p) throw std::bad_alloc(); memcpy(p, &n, sizeof n); g_bytes += (long)n; g_blocks++; return p + 16; }
static void give(void* q) { if (!q) return; char* p = (char*)q - 16; size_t n; memcpy(&n, p, sizeof n); g_bytes -= (long)n; g_blocks--; free(p); }
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p); }

static int entries(const char* dir) { int n = 0; DIR* d = opendir(dir); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n - 2; }
static int threads(int atMost, int wait = 200) { int n = entries("/proc/self/task"); for (int i = 0; i < wait && n > atMost; i++) { std::this_thread::sleep_for(std::chrono::milliseconds(5)); n = entries("/proc/self/task"); } return n; }   // a joined thread takes a moment to disappear
struct Use { long bytes, blocks; int files, names; };
static Use now() { Use u; std::string d = pbt::scratchDir(); u.files = entries("/proc/self/fd"); u.names = entries(d.c_str()); u.bytes = g_bytes; u.blocks = g_blocks; std::string().swap(d); return u; }
static Use measure() { (void)now(); return now(); }
static void compare(const Use& a, const Use& b, const std::string& what) {
    REQUIRE(b.files == a.files, what, ": ", b.files - a.files, " more open files"); REQUIRE(b.names == a.names, what, ": ", b.names - a.names, " more files left in the directory");
    REQUIRE(b.blocks <= a.blocks && b.bytes <= a.bytes, what, ": ", b.blocks - a.blocks, " more blocks, ", b.bytes - a.bytes, " more bytes of memory in use");
}
struct Failure { int k; };
struct Source : DataGenerator<double> {
    const std::vector<RD>* xs; const std::vector<std::string>* ls; size_t at = 0; long failAt = -1; long taken = 0;
    LabeledInput<double> getNextDataPoint() override { if (taken++ == failAt) throw Failure{1}; LabeledInput<double> r; r.data = build((*xs)[at % xs->size()], 0); r.label = (*ls)[at % xs->size()]; at++; return r; }
    size_t size() override { return xs->size(); }
    bool hasAvailableData() override { return at < xs->size(); }
    void reset() override { at = 0; }
};
using Model = ModelDescription<double, std::string>;
struct Training { RefStack st; std::vector<std::string> labels, ls; std::vector<RD> xs; Model::Hyperparameters hp; int fail = 0; long failAt = -1; };
static Training genTraining(Src& s) {
    Training t; StackOpts o; o.max_layers = 4; o.max_side = 6; t.st = genStack(s, o); t.labels = makeLabels(s, t.st.labels); int n = s.range(1, 12); for (int i = 0; i < n; i++) { t.xs.push_back(randRD(s, t.st.in, 1)); t.ls.push_back(t.labels[s.draw((uint64_t)t.st.labels - 1)]); }
    t.hp.batch_size = s.range(1, 8); t.hp.num_threads = s.range(1, 5); t.hp.num_epochs = s.range(1, 2); t.hp.learning_rate = 0.05; t.fail = (int)s.weighted({4, 1, 1, 1}); if (t.fail == 1) t.failAt = s.range(0, n - 1); if (t.fail == 2) t.ls[s.draw((uint64_t)n - 1)] = "not a label"; if (t.fail == 3) t.xs[s.draw((uint64_t)n - 1)] = RD(D3{t.st.in.x + 1, t.st.in.y, t.st.in.z + 1}, 0.5);
    return t;
}
static void runTraining(Model& m, const Training& t) { Source src; src.xs = &t.xs; src.ls = &t.ls; src.failAt = t.failAt; try { m.train(src, t.hp); } catch (const Failure&) {} catch (const std::exception&) {} }
static void prepare(Model& m, const Training& t) { addLayers(m, t.st); m.setOutputLabels(t.labels); }
static Task trainTask(Src& s) { Training t = genTraining(s); std::ostringstream nm; nm << "training " << t.st.name() << " batch " << t.hp.batch_size << " threads " << t.hp.num_threads << (t.fail ? " failing" : ""); return {nm.str(), [t](Log&) { Model m; prepare(m, t); runTraining(m, t); }}; }

// Work on objects of its own, begun from scratch each time
PROP_ND(givenBack, 3) {
    Src& s = c.s; int n = s.range(1, 3); std::vector<Task> v; for (int i = 0; i < n; i++) v.push_back(s.chance(1, 4) ? trainTask(s) : genTask(s, i)); for (auto& t : v) { c.log(t.name, "; "); c.label(t.name.substr(0, t.name.find(' '))); } c.nontrivial = true;
    auto all = [&] { for (auto& t : v) { Log o; o.tryIt([&] { t.run(o); }); } }; all(); int th = threads(1, 4); Use a = measure(); all(); Use b = measure(); compare(a, b, v.size() == 1 ? v[0].name : "the work"); all(); Use e = measure(); compare(a, e, "the work, once more"); REQUIRE(threads(th) <= th, "threads are still running: ", entries("/proc/self/task"), " instead of ", th);
}
// Work on the same objects, again and again
template<class F> void steady(Ctx& c, const std::string& what, F round) {
    int warm = 6, n = c.s.range(6, 20); for (int i = 0; i < warm; i++) round(); Use a = measure(); for (int i = 0; i < n; i++) round(); Use b = measure(); compare(a, b, what + ", " + std::to_string(n) + " rounds more");
}
PROP_ND(steadyModel, 3) {
    Src& s = c.s; Training t = genTraining(s);
    // with several threads, which slots of an incomplete batch are used depends on the schedule: there every batch is complete
    if (t.fail || s.boolean()) t.hp.num_threads = 1; else if (t.hp.num_threads > 1) { while ((int)t.xs.size() < t.hp.batch_size) t.hp.batch_size--; while (t.xs.size() % (size_t)t.hp.batch_size) { t.xs.pop_back(); t.ls.pop_back(); } }
    Model m; prepare(m, t); int slots = s.range(1, 4); std::string path = pbt::scratchDir() + "/steady"; bool save = s.chance(1, 4), train = s.chance(1, 3), back = s.chance(3, 4), apply = s.boolean(); c.log(t.st.name(), train ? " trained" : " used", back ? " with gradients" : "", apply ? " applied" : "", save ? " saved" : ""); c.label(train ? "trained" : "used"); c.nontrivial = t.st.L.size() > 1;
    std::vector<SimpleMatrix<double>> xs; std::vector<size_t> which; for (int i = 0; i < slots; i++) { size_t k = s.draw(t.xs.size() - 1); which.push_back(k); xs.push_back(build(t.xs[k], 0)); } if (!train) for (auto& l : m.layers) l->setBatchSize((size_t)slots);
    steady(c, "model " + t.st.name(), [&] {
        if (train) runTraining(m, t);
        else for (int i = 0; i < slots; i++) try { auto r = m.forwardPropagation(xs[(size_t)i], (size_t)i); if (back) m.backwardsPropagation(r, t.ls[which[(size_t)i]], (size_t)i); } catch (const std::exception&) {}
        if (!train && apply) for (auto& l : m.layers) l->applyBatch(0.01); if (save) m.saveModel(path);
    });
}
PROP_ND(steadyLayer, 3) {
    Src& s = c.s; StackOpts op; op.max_layers = 4; op.max_side = 8; RefStack st = genStack(s, op); size_t which = s.draw(st.L.size() - 1); RefLayer l = st.L[which]; D3 d = st.in; for (size_t i = 0; i < which; i++) d = st.L[i].outDim(d); int slots = s.range(1, 4), n = s.range(1, 4); c.log(l.name(), " ", d); c.label(l.kind == L_CONV ? "convolution" : l.kind == L_POOL ? "pooling" : l.kind == L_ACT ? "activation" : l.kind == L_FC ? "fully connected" : "softmax"); c.nontrivial = true;
    auto L = makeLayer(l); std::vector<SimpleMatrix<double>> X, G; std::vector<size_t> slot; for (int i = 0; i < n; i++) { D3 e = d; if (l.kind == L_CONV || l.kind == L_POOL) { e.x += s.range(0, 2); e.y += s.range(0, 2); } X.push_back(build(randRD(s, e, 1), 0)); G.push_back(build(randRD(s, l.outDim(e), 1), 0)); slot.push_back(s.draw((uint64_t)slots - 1)); } bool back = s.chance(3, 4), apply = s.boolean(), size = s.chance(1, 4), text = s.chance(1, 4); if (text) c.label("restored each time"); if (!size) L->setBatchSize((size_t)slots);
    steady(c, "layer " + l.name(), [&] {
        if (size) L->setBatchSize((size_t)slots);
        for (int i = 0; i < n; i++) { auto y = L->propagateForward(SimpleMatrix<double>(X[(size_t)i]), slot[(size_t)i]); if (back && l.kind != L_SOFTMAX) L->propagateBackward(X[(size_t)i], y, G[(size_t)i], slot[(size_t)i], false); }
        if (apply) L->applyBatch(0.001); if (text) { std::istringstream is(L->serialize()); L->deserialize(is); if (l.kind == L_FC) L->setBatchSize((size_t)slots); }
    });
}
PROP_ND(steadyMatrix, 2) {
    Src& s = c.s; D3 d = genDim(s, Sz::Tiny), e = genDim(s, Sz::Tiny); SimpleMatrix<double> m = build(randRD(s, d, 1), 0); const SimpleMatrix<double> a = build(randRD(s, d, 1), 0), b = build(randRD(s, e, 1), 0); std::string text; { std::ostringstream o; b.serialize(o); text = o.str(); } std::vector<int> ops; int n = s.range(1, 6); c.log(d, " ", e, ":"); while (n--) { ops.push_back(s.range(0, 9)); c.log(" ", ops.back()); } c.nontrivial = ops.size() > 1;
    auto reset = [&] { m = a; };
    steady(c, "matrix", [&] { reset(); for (int op : ops) try { switch (op) {
        case 0: m += a; break; case 1: m = m * 0.5 + a; break; case 2: m = b; break; case 3: m = transpose(m); break; case 4: m.resize(e.d()); break; case 5: m.reshape((int)m.size(), 1, 1); break;
        case 6: { std::istringstream is(text); m.deserialize(is); break; } case 7: m = std::vector<double>(m.size(), 1.0); break; case 8: { SimpleMatrix<double> t = std::move(m); m = std::move(t); break; } default: m = m + b;
    } } catch (const std::exception&) {} reset(); });
}
PROP_ND(steadyReader, 1) {
    Src& s = c.s; int n = s.range(1, 6), h = s.range(1, 6), w = s.range(1, 6); std::string a = pbt::scratchDir() + "/ri", b = pbt::scratchDir() + "/rl", I = image(2051) + image((uint32_t)n) + image((uint32_t)h) + image((uint32_t)w) + std::string((size_t)(n * h * w), 'x'), L = image(2049) + image((uint32_t)n) + std::string((size_t)n, 'y'); if (s.chance(1, 4)) I.resize(I.size() - 1);
    spit(a, I); spit(b, L); MNISTReader r(a, b); std::vector<int> at; int k = s.range(1, 8); while (k--) at.push_back(s.range(0, n)); c.log(n, " images of ", h, "x", w); c.nontrivial = true; std::vector<Image> kept((size_t)n + 1);
    steady(c, "reader", [&] { for (int i : at) try { kept[(size_t)i] = i == n ? r.nextImage() : r.getImage((size_t)i); } catch (const std::exception&) {} });
}
