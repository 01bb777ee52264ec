// Choice-sequence property-based testing engine (Hypothesis-style internal shrinking).
//
// A generated case is a pure function of a sequence of bounded integer choices.  Choices come from
// a PRNG seeded by (VERIF_SEED, variant, case number), from a replay file, or from fuzzer bytes.
// A failing case is shrunk by editing the choice sequence; the minimal sequence is the replay file.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <functional>
#include <exception>

namespace pbt {

constexpr size_t MAXC = 1 << 15;      // choices recorded per case

struct Fail { std::string msg; };
struct Discard {};

// Shared with the parent process, so that the choices survive a crash of the worker.
struct Shared {
    volatile uint64_t case_idx;
    volatile uint64_t progress;
    volatile uint32_t n;
    volatile int      state;          // 0 idle, 1 in a case, 2 failed (msg valid), 3 hang
    volatile int      prop;
    uint64_t ch[MAXC];
    char msg[8192];
};

extern int  g_tier;                   // 0 quick, 1 thorough
extern bool g_verbose;

class Src {
public:
    enum Mode { RANDOM, REPLAY, BYTES };
    static Src random(uint64_t seed, Shared* sh);
    static Src replay(const std::vector<uint64_t>& c, Shared* sh);
    static Src bytes(const uint8_t* d, size_t n, Shared* sh);

    // integer in [0, max]; shrinks towards 0
    uint64_t draw(uint64_t max);
    // integer in [lo, hi]; shrinks towards lo
    int range(int lo, int hi) { return lo + (int)draw((uint64_t)((int64_t)hi - lo)); }
    bool boolean() { return draw(1); }
    // true with probability num/den; shrinks to false
    bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
    template<class T, size_t N> const T& pick(const T (&v)[N]) { return v[draw(N - 1)]; }
    // index by weights; shrinks towards the first
    size_t weighted(std::initializer_list<unsigned> w) {
        uint64_t tot = 0; for (auto x : w) tot += x;
        uint64_t r = draw(tot - 1); size_t i = 0;
        for (auto x : w) { if (r < x) return i; r -= x; i++; }
        return 0;
    }
private:
    Mode mode_ = RANDOM;
    uint64_t s_[4];
    const std::vector<uint64_t>* rep_ = nullptr;
    const uint8_t* d_ = nullptr; size_t dn_ = 0, dp_ = 0;
    Shared* sh_ = nullptr;
    uint64_t next();
};

// Small deterministic PRNG for bulk data, seeded by a single choice.
struct Bulk {
    uint64_t x;
    explicit Bulk(uint64_t s) : x(s * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() { x += 0x9E3779B97F4A7C15ull; uint64_t z = x; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return next() % n; }
};

class Ctx {
public:
    explicit Ctx(Src& src) : s(src) {}
    Src& s;
    bool nontrivial = false;
    std::map<std::string, long> labels;
    std::ostringstream desc;
    void label(const std::string& l, long n = 1) { labels[l] += n; }
    template<class... A> void log(A&&... a) { if (g_verbose) { (void)(desc << ... << a); } }
};

using PropFn = std::function<void(Ctx&)>;
struct Prop { std::string name; unsigned weight; PropFn fn; bool nondet; };
std::vector<Prop>& props();
struct Reg { Reg(const char* n, unsigned w, PropFn f, bool nondet = false) { props().push_back({n, w, std::move(f), nondet}); } };

template<class... A> [[noreturn]] void fail(A&&... a) { std::ostringstream o; o.precision(17); (void)(o << ... << a); throw Fail{o.str()}; }

// Calls f and reports whether it threw an exception of type E.  Another exception type is passed on.
template<class E, class F> bool throws(F&& f) {
    try { f(); } catch (const E&) { return true; }
    return false;
}
template<class F> bool throwsAny(F&& f) {
    try { f(); } catch (const std::exception&) { return true; }
    return false;
}

std::string scratchDir();             // private directory of this worker, removed at the end

int runner_main(int argc, char** argv);
} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROP(name, weight) static void PBT_CAT(prop_, name)(pbt::Ctx& c); static pbt::Reg PBT_CAT(reg_, name)(#name, weight, PBT_CAT(prop_, name)); static void PBT_CAT(prop_, name)(pbt::Ctx& c)
#define PROP_ND(name, weight) static void PBT_CAT(prop_, name)(pbt::Ctx& c); static pbt::Reg PBT_CAT(reg_, name)(#name, weight, PBT_CAT(prop_, name), true); static void PBT_CAT(prop_, name)(pbt::Ctx& c)
#define REQUIRE(cond, ...) do { if (!(cond)) pbt::fail("line ", __LINE__, ": ", #cond, ": ", ##__VA_ARGS__); } while (0)
