// C33: labelled fields, the building blocks of every model file, read back as they were written.
#include "common.h"
#include "cnn_from_scratch/Serialization.h"
#include <variant>
#include <iomanip>
namespace ser = my_cnn::serialization;
using V = std::variant<int, unsigned, long, unsigned long, short, float, double, std::monostate>;
static std::string word(Src& s) { static const char* usual[] = {"x", "y", "z", "n", "stride", "weights", "biases", "Kernel", "Connected Layer", "Output labels"}; if (s.boolean()) return usual[s.draw(9)]; std::string w; int n = s.range(1, s.chance(1, 10) ? 60 : 8); for (int i = 0; i < n; i++) w += (char)('a' + s.range(0, 25)); return w; }
template<class T> T number(Src& s) {
    if constexpr (std::is_integral_v<T>) { using L = std::numeric_limits<T>; switch (s.range(0, 4)) { case 0: return (T)s.range(0, 9); case 1: return (T)s.draw(30000); case 2: return L::max(); case 3: return L::min(); default: return (T)((uint64_t)s.draw(~0ull >> 1) >> s.range(0, 62)); } }
    else { Bulk b(s.draw(0xFFFFFFFF)); double u = (double)(b.next() >> 11) / 9007199254740992.0 * 2 - 1; return (T)(s.boolean() ? std::round(u * 1000) : u * s.pick({1.0, 1e-6, 1e6, 1e30, 1e-30})); }
}
static V value(Src& s) { switch (s.range(0, 7)) { case 0: return number<int>(s); case 1: return number<unsigned>(s); case 2: return number<long>(s); case 3: return number<unsigned long>(s); case 4: return number<short>(s); case 5: return number<float>(s); case 6: return number<double>(s); default: return std::monostate{}; } }
static std::string firstLine(const std::string& t) { return t.substr(0, t.find('\n')); }
static void look(Src& s, std::istream& is, const std::string& rest) { if (rest.empty() || !s.boolean()) return; int n = s.range(1, 2); while (n--) { std::string got = ser::readLine(is); REQUIRE(got == firstLine(rest), "the next line is '", firstLine(rest), "' but reads '", got, "'"); REQUIRE(is.good(), "looking at a line damages the stream"); } }
PROP(roundTrip, 3) {
    Src& s = c.s; int n = s.range(1, 8), prec = 17; std::ostringstream os; os << std::setprecision(prec); std::vector<std::pair<std::string, V>> f; std::vector<size_t> at; c.nontrivial = n > 1;
    for (int i = 0; i < n; i++) { std::string l = word(s); V v = value(s); at.push_back(os.str().size()); std::visit([&](auto x) { if constexpr (std::is_same_v<decltype(x), std::monostate>) os << l << '\n'; else ser::place(os, x, l); }, v); f.emplace_back(l, v); }
    at.push_back(os.str().size()); std::string tail = s.boolean() ? "" : "rest of the file\n", t = os.str() + tail; std::istringstream is(t); c.log(t);
    for (int i = 0; i < n; i++) {
        look(s, is, t.substr(at[(size_t)i])); auto& [l, v] = f[(size_t)i];
        if (s.chance(1, 6)) { ser::clearLine(is); c.label("skipped"); }
        else std::visit([&, &l = l](auto x) { using T = decltype(x); if constexpr (std::is_same_v<T, std::monostate>) { ser::expect<void>(is, l); c.label("keyword"); } else { T got = ser::expect<T>(is, l); REQUIRE(got == x, "field '", l, "' of ", x, " reads back as ", got); c.label(std::is_integral_v<T> ? "integer" : "real"); } }, v);
        std::string rest = t.substr(at[(size_t)i + 1]); if (!rest.empty() || is.good()) { is.clear(is.rdstate() & ~std::ios::eofbit); REQUIRE((size_t)is.tellg() == at[(size_t)i + 1], "reading field ", i, " leaves the stream at ", is.tellg(), " instead of ", at[(size_t)i + 1]); }
    }
}
template<class T> bool refuses(const std::string& t, const std::string& l) { std::istringstream is(t); try { ser::expect<T>(is, l); } catch (const std::exception&) { return true; } return false; }
PROP(damaged, 3) {
    Src& s = c.s; std::string l = word(s), t; int kind = s.range(0, 6); int ty = s.range(0, 6); bool isvoid = false; std::string num = ty >= 5 ? "2.5" : "25"; c.nontrivial = true;
    switch (kind) {
        case 0: { std::string o = l; size_t i = s.draw(l.size() - 1); o[i] = o[i] == 'q' ? 'p' : 'q'; isvoid = s.boolean(); t = o + (isvoid ? "\n" : " " + num + "\n"); c.label("other label"); break; }      // another label of the same length
        case 1: isvoid = s.boolean(); t = l.substr(0, s.draw(l.size() - 1)); if (s.boolean()) t += "\n"; c.label("label cut"); break;
        case 2: t = l + s.pick({std::string(""), std::string(" "), std::string("\n"), std::string(" \n"), std::string(" nothing\n"), std::string(" -\n"), std::string(" x25\n"), std::string("\nweights\n")}); c.label("no value"); break;
        case 3: { isvoid = s.boolean(); std::string junk = s.pick({std::string(" 1"), std::string("x"), std::string(" more"), std::string("\tmore"), std::string(" -"), std::string(",3")}); if (!isvoid || junk != "") t = l + (isvoid ? "" : " " + num) + junk + "\n"; c.label("more text"); break; }
        case 4: { ty = s.pick({0, 2, 3, 4}); t = l + " " + (ty == 0 ? s.pick({"2147483648", "-2147483649", "99999999999"}) : ty == 4 ? s.pick({"32768", "-32769", "100000"}) : s.pick({"18446744073709551616", "99999999999999999999999"})) + "\n"; c.label("out of range"); break; }
        case 5: { ty = s.pick({1, 3}); t = l + s.pick({" ", "  ", "\t", " \t"}) + s.pick({"-1", "-25", "-4294967295", "-18446744073709551615", "-2147483648"}) + "\n"; c.label("negative for an unsigned field"); break; }
        default: { ty = s.range(0, 4); t = l + " " + s.pick({"2.5", "1e3", "0x10", "3,"}) + "\n"; c.label("not an integer"); }
    }
    c.log("'", t, "' read as '", l, "'"); bool r;
    if (isvoid) r = refuses<void>(t, l); else switch (ty) { case 0: r = refuses<int>(t, l); break; case 1: r = refuses<unsigned>(t, l); break; case 2: r = refuses<long>(t, l); break; case 3: r = refuses<unsigned long>(t, l); break; case 4: r = refuses<short>(t, l); break; case 5: r = refuses<float>(t, l); break; default: r = refuses<double>(t, l); }
    REQUIRE(r, "'", t, "' is accepted as a field '", l, "'");
}
PROP(lines, 1) {
    Src& s = c.s; int n = s.range(1, 6); std::vector<std::string> ls; std::string t; for (int i = 0; i < n; i++) { int k = s.range(0, 3); std::string l = k == 0 ? "" : k == 1 ? std::string((size_t)s.range(1, 3), s.pick({' ', '\t', '\r'})) : word(s) + (s.boolean() ? " and more " : ""); if (s.chance(1, 50)) l += std::string((size_t)s.range(1, 200000), 'k'); ls.push_back(l); t += l + "\n"; } t += "end\n"; std::istringstream is(t); size_t at = 0; c.nontrivial = n > 1;
    for (auto& l : ls) {
        look(s, is, t.substr(at)); size_t off = s.draw(l.size()); is.seekg((long)(at + off)); bool blank = l.find_first_not_of(" \t\r", off) == std::string::npos; bool got = true; bool fin = s.boolean(); if (fin) got = ser::finishLine(is); else { ser::clearLine(is); got = blank; } at += l.size() + 1;
        REQUIRE(got == blank, "the rest '", l.substr(off), "' of a line is", got ? "" : " not", " taken for blank"); REQUIRE(is.good() && (size_t)is.tellg() == at, "after a line the stream is at ", is.tellg(), " instead of ", at);
    }
}
