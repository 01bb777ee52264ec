// C34: objects that share nothing can be used from different threads at once; one matrix can be read by many.
#include "tasks.h"
#include <thread>
#include <atomic>
// All at the same time, `rounds` times over; each must observe what it observes alone
static void race(Ctx& c, const std::vector<Task>& v, int rounds, bool aloneFirst) {
    std::vector<std::string> alone(v.size()); std::vector<std::vector<std::string>> got(v.size());
    auto run = [](const Task& t) { Log o; o.tryIt([&] { t.run(o); }); return o.t; };
    auto single = [&] { for (size_t i = 0; i < v.size(); i++) alone[i] = run(v[i]); }; if (aloneFirst) single();
    std::vector<std::thread> th; std::atomic<int> ready{0}; std::atomic<bool> go{false};
    for (size_t w = 0; w < v.size(); w++) th.emplace_back([&, w] { ready++; while (!go) std::this_thread::yield(); for (int k = 0; k < rounds; k++) got[w].push_back(run(v[w])); });
    while (ready < (int)v.size()) std::this_thread::yield(); go = true; for (auto& t : th) t.join();
    if (!aloneFirst) single();
    for (size_t i = 0; i < v.size(); i++) for (auto& g : got[i]) { size_t k = 0; while (k < g.size() && k < alone[i].size() && g[k] == alone[i][k]) k++; REQUIRE(g == alone[i], v[i].name, ": together with other threads its results differ from those alone, from byte ", k, " of ", alone[i].size(), " / ", g.size()); }
    c.nontrivial = true;
}
PROP_ND(independent, 4) {
    Src& s = c.s; int n = s.range(2, 6); std::vector<Task> v; bool twins = s.chance(1, 3);
    for (int i = 0; i < n; i++) { v.push_back(genTask(s, i)); c.log(i ? "; " : "", v.back().name); c.label(v.back().name.substr(0, v.back().name.find(' '))); if (twins && i + 1 < n && v.back().name.find("file") == std::string::npos && v.back().name.find("reader") == std::string::npos) { v.push_back(v.back()); i++; c.log(" twice"); c.label("the same work twice"); } }
    race(c, v, s.range(1, 4), s.boolean());
}
template<class T> void sharedRead(Ctx& c) {
    Src& s = c.s; D3 d = s.chance(1, 12) ? D3{s.range(20, 60), s.range(20, 60), s.range(1, 2)} : genDim(s, Sz::Tiny); const SimpleMatrix<T> a = build(genRef<T>(s, d, Vc::Ints), 0), b = build(genRef<T>(s, d, Vc::Ints), 0); c.log(d);
    int n = s.range(2, 6); std::vector<Task> v;
    for (int i = 0; i < n; i++) { std::vector<std::pair<int, uint64_t>> st; int k = s.range(1, 6); c.log(i ? " | " : ": "); while (k--) { st.push_back({s.range(0, 13), s.draw(0xFFFFFFFF)}); c.log(st.back().first, " "); } v.push_back({"reading a shared matrix", [&a, &b, st](Log& o) { for (auto& q : st) o.tryIt([&] { readStep<T>(o, q.first, a, b, q.second); }); }}); }
    race(c, v, s.range(1, 4), s.boolean());
}
PROP_ND(sharedReading, 2) { switch (c.s.range(0, 3)) { case 0: sharedRead<double>(c); c.label("double"); break; case 1: sharedRead<float>(c); c.label("float"); break; case 2: sharedRead<int>(c); c.label("int"); break; default: sharedRead<long>(c); c.label("long"); } }
