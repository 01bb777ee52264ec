// Calls f with an operand holding the values of a reference matrix, in one of the kinds the library accepts.
#pragma once
#include "common.h"

// A matrix embedded at an offset in a larger one, for views.
template<class T> struct Embedded {
    SimpleMatrix<T> host; D3 at, d;
    Embedded(Src& s, const Ref<T>& r) : d(r.d) {
        D3 m{s.range(0, 2), s.range(0, 2), s.range(0, 1)}, e{s.range(0, 2), s.range(0, 2), s.range(0, 1)}; at = m;
        host = SimpleMatrix<T>(dim3(m.x + d.x + e.x, m.y + d.y + e.y, m.z + d.z + e.z), T(77));
        r.each([&](int x, int y, int z) { host(m.x + x, m.y + y, m.z + z) = r.at(x, y, z); });
    }
    SubMatrixView<T> view() { return host.subMatView(at.d(), d.d()); }
    SubMatrixView<const T> cview() const { return host.subMatView(at.d(), d.d()); }
};
enum Kind { LVALUE, CONST_LVALUE, RVALUE, VIEW, CONST_VIEW, EXPR, N_KINDS };
inline const char* kindName(int k) { static const char* n[] = {"named", "const", "temporary", "view", "const view", "expression"}; return n[k]; }
// f gets a forwarding reference; the operand's source outlives the call.
template<class T, class F> void withKind(int kind, Src& s, const Ref<T>& r, F&& f) {
    switch (kind) {
        case LVALUE: { SimpleMatrix<T> m = build(r, 0); f(m); expectEq(m, r, "operand after use"); break; }
        case CONST_LVALUE: { const SimpleMatrix<T> m = build(r, 0); f(m); expectEq(m, r, "operand after use"); break; }
        case RVALUE: f(build(r, 0)); break;
        case VIEW: { Embedded<T> e(s, r); SimpleMatrix<T> before = e.host; f(e.view()); expectEq(e.host, toRef(before), "parent of a view operand after use"); break; }
        case CONST_VIEW: { const Embedded<T> e(s, r); auto v = e.cview(); f(v); expectEq(v, r, "view operand after use"); break; }
        default: f(build(r, 0) * T(1)); break;       // a lazy expression owning its temporary
    }
}
// The four kinds that cover all storage categories (reference to a named matrix, owned temporary, view, lazy expression);
// used where two operands are combined, to bound the number of instantiations.
template<class T, class F> void withKind4(int kind, Src& s, const Ref<T>& r, F&& f) {
    switch (kind) {
        case LVALUE: { SimpleMatrix<T> m = build(r, 0); f(m); expectEq(m, r, "operand after use"); break; }
        case RVALUE: f(build(r, 0)); break;
        case CONST_VIEW: { const Embedded<T> e(s, r); f(e.cview()); break; }
        default: f(build(r, 0) * T(1)); break;
    }
}
inline int genKind4(Src& s) { static const int k[] = {LVALUE, RVALUE, CONST_VIEW, EXPR}; return k[s.draw(3)]; }
#ifndef PART
#define PART -1
#endif
#define IN_PART(k) (PART == -1 || PART == (k))
