// C21: text round trip of matrices; consecutive objects; truncation, corruption and arbitrary text.
#include "common.h"
#include <memory>
template<class T> T anyVal(Src& s, Vc vc) {
    if constexpr (std::is_integral_v<T>) {
        switch (s.weighted({5, 2, 2})) { case 0: return genVal<T>(s, vc); case 1: return s.pick({std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), (T)0, (T)(std::numeric_limits<T>::max() / 2)}); default: return (T)s.draw(~0ull >> 1); }
    } else {
        switch (s.weighted({5, 2})) { case 0: return genVal<T>(s, vc); default: return (T)(((double)s.draw(20000001) - 10000000) * 1e-7 * s.pick({1.0, 5.0, 100.0, 1e4, 1e9, 0.001})); }
    }
}
template<class T> Ref<T> anyRef(Src& s, D3 d) {
    Vc vc = genVc(s); if (d.size() > 40) return genRef<T>(s, d, vc);
    Ref<T> r(d); for (auto& v : r.v) v = anyVal<T>(s, vc); return r;
}
static D3 textDim(Src& s) { D3 d; switch (s.weighted({6, 3, 2, 2})) { case 0: d = D3{s.range(1, 4), s.range(1, 4), s.range(1, 3)}; break; case 1: d = D3{s.range(1, 12), s.range(1, 12), s.range(1, 4)}; break; case 2: { int b[3] = {1, 1, 1}; b[s.range(0, 2)] = s.range(1, 120); d = D3{b[0], b[1], b[2]}; break; } default: d = D3{s.range(0, 12), s.range(0, 12), s.range(0, 12)}; int m = s.range(1, 7); if (m & 1) d.x = 0; if (m & 2) d.y = 0; if (m & 4) d.z = 0; } return d; }
template<class T> void expectText(const SimpleMatrix<T>& m, const Ref<T>& r, const char* what) {
    if constexpr (std::is_integral_v<T>) expectEq(m, r, what);
    else expectNear(m, r, [&](int x, int y, int z) { return 5.1e-7 + std::fabs((double)r.at(x, y, z)) * std::numeric_limits<T>::epsilon(); }, what);
    REQUIRE((long)m.size() == r.d.size(), what, ": size() is ", m.size());
}
template<class T> SimpleMatrix<T> receiver(Src& s) { if (s.boolean()) return SimpleMatrix<T>(); return build(anyRef<T>(s, textDim(s)), 0); }
template<class T> void usable(SimpleMatrix<T>& m) {      // every element is really there
    REQUIRE((long)m.size() == fromDim(m.dim()).size(), "size ", m.size(), " of a matrix of shape ", fromDim(m.dim())); volatile T keep{}; for (size_t i = 0; i < m.size(); i++) keep = m[i]; (void)keep; m = SimpleMatrix<T>(dim3(1, 2, 1)); m(0, 1, 0) = T(1); REQUIRE(m(0, 1, 0) == T(1), "matrix unusable after a failed read");
}
template<class F> void withType(Src& s, F f) {
    switch (s.weighted({4, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1})) {
        case 0: f(double{}, "double"); break; case 1: f(float{}, "float"); break; case 2: f(int{}, "int"); break; case 3: f((unsigned char)0, "unsigned char"); break; case 4: f((signed char)0, "signed char"); break;
        case 5: f((char)0, "char"); break; case 6: f((short)0, "short"); break; case 7: f((unsigned short)0, "unsigned short"); break; case 8: f(0u, "unsigned"); break; case 9: f(0l, "long"); break; default: f((size_t)0, "size_t");
    }
}
// write everything first, then read everything back
PROP(consecutive, 3) {
    Src& s = c.s; int n = s.range(1, 5); std::stringstream ss; std::vector<std::function<void()>> checks; std::string text;
    for (int i = 0; i < n; i++) withType(s, [&](auto t, const char* nm) {
        using T = decltype(t); auto r = std::make_shared<Ref<T>>(anyRef<T>(s, textDim(s))); auto m = build(*r, 0); m.serialize(ss); REQUIRE(ss.good(), "stream bad after serialize"); expectEq(m, *r, "matrix after serialize"); c.log(i ? ", " : "", nm, " ", *r); c.label(szLabel(r->d)); c.label(nm); c.nontrivial |= r->d.size() > 1 || (n > 1 && r->d.size() == 0);
        std::ostringstream own; m.serialize(own); std::string o = own.str(); text += o; auto rc = std::make_shared<SimpleMatrix<T>>(receiver<T>(s)); auto in = std::make_shared<std::string>(o);
        checks.push_back([&ss, r, rc, in, i] {
            REQUIRE(rc->deserialize(ss), "matrix ", i, " of ", r->d, " reported as unreadable"); expectText(*rc, *r, "matrix read back");
            std::ostringstream again; rc->serialize(again); REQUIRE(again.str() == *in, "writing the matrix read back gives different text: ", again.str().substr(0, 200), " instead of ", in->substr(0, 200));
        });
    });
    REQUIRE(ss.str() == text, "text depends on what the stream held before"); bool tail = s.boolean(); if (tail) ss << "tail 42\n"; for (auto& f : checks) f();
    if (tail) { std::string rest; std::getline(ss, rest); REQUIRE(rest == "tail 42", "text after the matrices was consumed: rest of the stream starts with '", rest, "'"); }
}
// one matrix of more elements than 20 bits count
PROP(giant, 1) {
    Src& s = c.s; if (!s.chance(1, 900)) { c.label("giant matrix not drawn"); return; }
    D3 d{s.range(1, 2), s.range(1, 3), 1}; d.z = (int)((1 << 20) / (d.x * d.y)) + s.range(1, 5); switch (s.range(0, 2)) { case 0: std::swap(d.x, d.z); break; case 1: std::swap(d.y, d.z); break; default: break; } c.log("giant ", d); c.label("giant"); c.nontrivial = true;
    Bulk b(s.draw(0xFFFFFF)); Ref<int> r(d); for (auto& v : r.v) v = (int)b.below(1000) - 500; auto m = build(r, 0); std::stringstream ss; m.serialize(ss); SimpleMatrix<int> rc; REQUIRE(rc.deserialize(ss), "matrix of ", d, " reported as unreadable"); expectEq(rc, r, "giant matrix read back");
}
// all prefixes of the text
PROP(truncated, 2) {
    Src& s = c.s;
    withType(s, [&](auto t, const char* nm) {
        using T = decltype(t); D3 d = textDim(s); if (d.size() > 60) d = D3{2, 3, 2}; Ref<T> r = anyRef<T>(s, d); auto m = build(r, 0); std::ostringstream o; m.serialize(o); std::string text = o.str(); c.log(nm, " ", r);
        size_t last = text.find_last_not_of(" \n\t\r") + 1; c.nontrivial = r.d.size() > 0; std::vector<size_t> cuts; if (text.size() <= 300) for (size_t i = 0; i < text.size(); i++) cuts.push_back(i); else { for (int i = 0; i < 60; i++) cuts.push_back(s.draw(text.size() - 1)); for (size_t i = last - 20; i < text.size(); i++) cuts.push_back(i); }
        for (size_t k : cuts) {
            SimpleMatrix<T> rc = receiver<T>(s); std::istringstream is(text.substr(0, k)); bool ok = false; try { ok = rc.deserialize(is); } catch (const std::exception&) {}
            if (ok && k < last) pbt::fail(nm, " matrix of ", r.d, " cut after ", k, " of ", text.size(), " characters (", text.substr(k > 12 ? k - 12 : 0, k > 12 ? 12 : k), "|) read as complete");
            if (ok) expectText(rc, r, "matrix missing only trailing blanks"); else usable(rc);
        }
    });
}
PROP(corrupted, 3) {
    Src& s = c.s;
    withType(s, [&](auto t, const char* nm) {
        using T = decltype(t); D3 d = textDim(s); if (d.size() == 0) d = D3{2, 2, 1}; Ref<T> r = anyRef<T>(s, d); auto m = build(r, 0); std::ostringstream o; m.serialize(o); std::string text = o.str(); size_t hdr = text.find('\n'); int kind = (int)s.weighted({4, 2, 2, 2, 2, 2}); c.nontrivial = true; bool must = true; if (kind == 5 && !std::is_unsigned_v<T>) kind = 0;
        if (kind == 0) { std::vector<size_t> pos; for (size_t i = 0; i < text.size(); i++) if (!strchr(" \n", text[i])) pos.push_back(i); text[pos[s.draw(pos.size() - 1)]] = s.pick({'x', '?', 'Q', '@', ',', '_', '\0'}); c.label("letter in a number"); }
        else if (kind == 1) { int a = s.range(0, 2); int b[3] = {d.x, d.y, d.z}; b[a] = -b[a]; if (s.boolean()) b[(a + 1) % 3] *= -1; std::ostringstream h; h << b[0] << " " << b[1] << " " << b[2]; text = h.str() + text.substr(hdr); c.label("negative shape"); }
        else if (kind == 2) { static const char* big[] = {"100000 100000 1", "2147483647 1 1", "1 2147483647 1", "1 1 2147483647", "65536 65536 1", "46341 46341 1", "1290 1291 1292", "65536 32768 2", "2147483647 2147483647 2147483647", "99999999999 1 1", "1 99999999999999999999999 1", "1 1 4294967297", "2147483648 2 2", "0 1 2147483647", "2147483647 0 1", "1000000 1000 2"}; text = std::string(big[s.draw(15)]) + text.substr(hdr); c.label("absurd shape"); }
        else if (kind == 3) { int b[3] = {d.x, d.y, d.z}; b[s.range(0, 2)] += s.range(1, 5); std::ostringstream h; h << b[0] << " " << b[1] << " " << b[2]; text = h.str() + text.substr(hdr); c.label("shape larger than the data"); }
        else if (kind == 5) {        // the sign of one element of an unsigned type
            std::vector<size_t> pos; for (size_t i = hdr + 1; i < text.size(); i++) if (isdigit((unsigned char)text[i]) && text[i] != '0' && !isdigit((unsigned char)text[i - 1])) pos.push_back(i); if (pos.empty()) { must = false; } else text.insert(s.pick(pos), "-"); c.label("negative element of an unsigned type");
        }
        else { must = false; c.label("arbitrary edits"); int n = s.range(1, 6); for (int i = 0; i < n; i++) { size_t p = s.draw(text.size() - 1); switch (s.range(0, 3)) { case 0: text[p] = s.pick({'0', '9', '-', '.', ' ', '\n', 'e', '+', '\t', 'n'}); break; case 1: text.erase(p, 1 + s.draw(5)); if (text.empty()) text = "1"; break; case 2: text.insert(p, 1, s.pick({'0', '9', '-', '.', ' ', '\n', 'e'})); break; default: text[p] = (char)s.draw(255); } } 
            }
        c.log(nm, " ", text.substr(0, 300)); SimpleMatrix<T> rc = receiver<T>(s); std::istringstream is(text); bool ok = false; try { ok = rc.deserialize(is); } catch (const std::exception&) {}
        if (must) REQUIRE(!ok, "damaged text of a ", nm, " matrix read as valid: ", text.substr(0, 400)); c.label(ok ? "accepted" : "refused");
        REQUIRE((long)rc.size() == fromDim(rc.dim()).size(), "size and shape disagree after reading damaged text"); usable(rc);
    });
}
PROP(arbitrary, 1) {
    Src& s = c.s; std::string text; int n = s.range(0, 60); static const char* tok[] = {"0", "1", "2", "3", "-1", "7", " ", "\n", " ", "\n", "1 1 1\n", "2 2 1\n", "0.5", "nan", "inf", "1e400", "-", ".", "x", "300", "99999999999"};
    for (int i = 0; i < n; i++) { if (s.chance(1, 5)) text += (char)s.draw(255); else { text += tok[s.draw(20)]; if (s.boolean()) text += ' '; } } c.log(text); c.nontrivial = n > 3;
    withType(s, [&](auto t, const char*) { using T = decltype(t); SimpleMatrix<T> rc = receiver<T>(s); std::istringstream is(text); bool ok = false; try { ok = rc.deserialize(is); } catch (const std::exception&) {} c.label(ok ? "accepted" : "refused"); usable(rc); });
}
