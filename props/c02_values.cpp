// Model-based histories over a pool of matrices of several element types.
#include "common.h"
#include <memory>
#include <variant>

template<class T> struct Slot { SimpleMatrix<T> m; Ref<T> r; };
using Any = std::variant<Slot<double>, Slot<int>, Slot<float>, Slot<long>>;

static D3 smallDim(Src& s) {
    D3 d; if (s.chance(1, 12)) return d;
    d.x = s.range(0, 5); d.y = s.range(0, 5); d.z = s.range(0, 3);
    if (s.chance(7, 8)) { d.x = std::max(d.x, 1); d.y = std::max(d.y, 1); d.z = std::max(d.z, 1); }
    if (s.chance(1, 30)) { d.x = s.range(1, 60); d.y = s.range(1, 60); }
    return d;
}
// fraction values that convert to every type without overflow
template<class T> T val(Src& s) { long v = (long)s.draw(20000); double q = (double)((v + 1) / 2) / 8.0; return (T)((v & 1) ? q : -q); }
template<class T> Ref<T> vals(Src& s, D3 d) { Ref<T> r(d); if (d.size() <= 30) for (auto& v : r.v) v = val<T>(s); else { Bulk b(s.draw(0xFFFFFFF)); for (auto& v : r.v) v = (T)((double)(long)(b.below(4001)) / 8.0 - 250); } return r; }
template<class T> Slot<T> fresh(Src& s) { Slot<T> q; q.r = vals<T>(s, smallDim(s)); q.m = build(s, q.r); return q; }
static Any freshAny(Src& s) { switch (s.draw(3)) { case 0: return fresh<double>(s); case 1: return fresh<int>(s); case 2: return fresh<float>(s); default: return fresh<long>(s); } }
template<class T, class U> Ref<T> conv(const Ref<U>& u) { Ref<T> r(u.d); for (size_t i = 0; i < u.v.size(); i++) r.v[i] = static_cast<T>(u.v[i]); return r; }
template<class T> Ref<T> reshaped(const Ref<T>& a, D3 d) { Ref<T> r(d); size_t n = std::min(a.v.size(), r.v.size()); for (size_t i = 0; i < n; i++) r.flat(i) = a.flat(i); return r; }
template<class T> SimpleMatrix<T> passThrough(SimpleMatrix<T> m) { return m; }

static void checkAll(const std::vector<std::unique_ptr<Any>>& pool, const char* op, int step) {
    for (size_t i = 0; i < pool.size(); i++) std::visit([&](auto& q) {
        std::string w = "matrix " + std::to_string(i) + " after step " + std::to_string(step) + " (" + op + ")";
        if ((long)q.m.size() != q.r.d.size()) pbt::fail(w, ": size() ", q.m.size(), " expected ", q.r.d.size());
        expectEq(q.m, q.r, w.c_str());
    }, *pool[i]);
}

PROP(histories, 1) {
    Src& s = c.s;
    std::vector<std::unique_ptr<Any>> pool;
    int n0 = s.range(2, 4); for (int i = 0; i < n0; i++) pool.push_back(std::make_unique<Any>(freshAny(s)));
    int steps = s.range(1, pbt::g_tier ? 40 : 20); int moves = 0, sharing = 0, refusals = 0;
    for (int k = 0; k < steps; k++) {
        size_t a = s.draw(pool.size() - 1), b = s.draw(pool.size() - 1);
        int op = s.range(0, 16); const char* name = "";
        std::visit([&](auto& A) {
            using T = typename std::decay_t<decltype(A.m)>::type;
            switch (op) {
                case 0: { name = "write element"; if (A.r.v.empty()) break; int x = s.range(0, A.r.d.x - 1), y = s.range(0, A.r.d.y - 1), z = s.range(0, A.r.d.z - 1); T v = val<T>(s); A.m(x, y, z) = v; A.r.at(x, y, z) = v; break; }
                case 1: { name = "reshape"; D3 d = smallDim(s);
                    if (s.chance(2, 3)) { d = A.r.d; int p = s.range(0, 4); if (p == 0) d = D3{(int)d.size(), 1, 1}; else if (p == 1) d = D3{1, (int)d.size(), 1}; else if (p == 2) std::swap(d.x, d.y); else if (p == 3) std::swap(d.y, d.z); else d = D3{1, 1, (int)d.size()}; }
                    if (s.chance(1, 4)) switch (s.draw(2)) { // shapes whose element count only matches after wrapping around, or with negative axes
                        case 0: { unsigned x = 2 * (unsigned)s.draw(500000) + 1, inv = x; for (int i = 0; i < 5; i++) inv *= 2 - x * inv; unsigned y = inv * (unsigned)A.r.d.size(); if (y < 0x80000000u) { d = D3{(int)x, (int)y, 1}; int p = (int)s.draw(2); if (p == 1) std::swap(d.x, d.y); if (p == 2) std::swap(d.x, d.z); } break; }
                        case 1: { int k = s.range(8, 30); d = D3{1 << k, k < 16 ? 1 << 30 : 1 << (32 - k), k < 16 ? 1 << (16 - k) : 1}; if (A.r.d.size()) d.y += (int)(A.r.d.size() >> k); break; }
                        default: { d = A.r.d; int p = (int)s.draw(2); if (p != 0) d.x = -d.x; if (p != 1) d.y = -d.y; if (p != 2) d.z = -d.z; } }
                    bool ok = d.x >= 0 && d.y >= 0 && d.z >= 0 && (__int128)d.x * d.y * d.z == (__int128)A.r.d.size(), th; bool form = s.boolean();
                    th = pbt::throws<MatrixTransformException>([&] { if (form) A.m.reshape(d.x, d.y, d.z); else A.m.reshape(d.d()); });
                    if (th == ok) pbt::fail("reshape of ", A.r.d, " to ", d, ok ? " refused" : " accepted");
                    if (ok) A.r = reshaped(A.r, d); else refusals++;
                    break; }
                case 2: { name = "resize"; D3 d = smallDim(s); if (s.boolean()) A.m.resize(d.x, d.y, d.z); else A.m.resize(d.d()); A.r = reshaped(A.r, d); break; }
                case 3: { name = "set entries"; Ref<T> v = vals<T>(s, A.r.d); A.m.setEntries(std::vector<T>(v.v)); A.r = v; break; }
                case 4: { name = "raw vector"; Ref<T> v = vals<T>(s, A.r.d); std::vector<T> f(v.v.size()); for (size_t i = 0; i < f.size(); i++) f[i] = v.flat(i); A.m = std::move(f); A.r = v; break; }
                case 5: { name = "copy construct"; sharing++; Slot<T> q{SimpleMatrix<T>(A.m), A.r}; if (s.boolean()) q.m = passThrough(A.m); if (pool.size() < 6) pool.push_back(std::make_unique<Any>(std::move(q))); else { expectEq(q.m, A.r, "copy"); } break; }
                case 6: { name = "move construct"; moves++; SimpleMatrix<T> t(std::move(A.m)); Ref<T> tr = A.r; A.r = Ref<T>(); expectEq(A.m, A.r, "moved-from matrix"); expectEq(t, tr, "moved-to matrix");
                    if (s.boolean()) { A.m = std::move(t); A.r = tr; expectEq(t, Ref<T>(), "moved-from temporary"); } else if (pool.size() < 6) pool.push_back(std::make_unique<Any>(Slot<T>{std::move(t), tr})); break; }
                case 7: { name = "self assignment"; auto& self = A.m; A.m = self; const auto& cself = A.m; A.m = cself; break; }
                case 8: { name = "const conversion"; sharing++; const auto& src = A.m; SimpleMatrix<double> d1(src); SimpleMatrix<int> d2(src); expectEq(d1, conv<double>(A.r), "converted to double"); expectEq(d2, conv<int>(A.r), "converted to int"); d1 += 1; d2 *= 2; break; }
                case 9: { name = "fill constructor"; D3 d = smallDim(s); T v = val<T>(s); A.m = SimpleMatrix<T>(d.d(), v); A.r = Ref<T>(d, v); break; }
                case 10: { name = "clear"; A.m = SimpleMatrix<T>(); A.r = Ref<T>(); break; }
                case 16: { name = "write through iterator"; T v = val<T>(s); size_t i = A.r.v.empty() ? 0 : s.draw(A.r.v.size() - 1), kk = 0; for (auto& e : A.m) { if (kk++ == i) e = v; } if (!A.r.v.empty()) A.r.flat(i) = v; break; }
                default: {
                    std::visit([&](auto& B) {
                        using U = typename std::decay_t<decltype(B.m)>::type;
                        if (op == 11) { name = "assign"; A.m = B.m; A.r = conv<T>(B.r); sharing++; }
                        else if (op == 12) { name = "assign from const"; const auto& cb = B.m; A.m = cb; A.r = conv<T>(B.r); sharing++; }
                        else if (op == 13) { name = "construct from"; SimpleMatrix<T> t(B.m); A.r = conv<T>(B.r); A.m = std::move(t); sharing++; }
                        else if (op == 14) { name = "move assign"; if (a == b) return; if constexpr (std::is_same_v<T, U>) { A.m = std::move(B.m); A.r = B.r; B.r = Ref<U>(); moves++; } else { A.m = SimpleMatrix<T>(B.m); A.r = conv<T>(B.r); } }
                        else { name = "swap"; if constexpr (std::is_same_v<T, U>) { if (a != b) { std::swap(A.m, B.m); std::swap(A.r, B.r); moves++; } } }
                    }, *pool[b]);
                }
            }
        }, *pool[a]);
        c.label(name); c.log(name, " on ", a, "; ");
        checkAll(pool, name, k);
    }
    c.nontrivial = steps >= 3 && (moves || sharing);
    if (refusals) c.label("refused reshape");
}
