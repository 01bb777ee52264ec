// Random models with every kind of label, built through the public layer-adding interface.
#pragma once
#include "modelref.h"
#include <fstream>
inline std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
inline void spit(const std::string& p, const std::string& t) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f << t; }
template<class Out> std::vector<Out> anyLabels(Src& s, int n) {
    std::vector<Out> v;
    for (int i = 0; i < n; i++) {
        if constexpr (std::is_same_v<Out, std::string>) {
            static const char* odd[] = {"Kernel", "Softmax", "Output labels 3", "(0) ----------", " leading space", "trailing space ", "two words", "tab\tinside", "1.5", "-", "weights", "  ", "x 3", "\xc3\xa9t\xc3\xa9", ""};
            v.push_back(s.chance(1, 3) ? odd[s.draw(14)] + std::string(s.boolean() ? std::to_string(i) : "") : "class " + std::to_string(i));
        } else if constexpr (std::is_same_v<Out, char>) v.push_back((char)s.range('!', '~'));
        else if constexpr (std::is_integral_v<Out>) v.push_back(s.boolean() ? (Out)i : (Out)((long)s.draw(2000000) - (std::is_unsigned_v<Out> ? 0 : 1000000)));
        else v.push_back(s.boolean() ? (Out)i / 4 : (Out)((double)s.draw(200000000) * 1e-7 - 10) * (Out)s.pick({1.0, 1e6, 1e-6, 1e12}));
    }
    return v;
}
inline double paramScale(Src& s) { return s.pick({1.0, 1.0, 1.0, 0.01, 30.0, 2000.0, 1e9}); }
// A model of the stack, with its parameters (unless it never saw an input) and labels
template<class M, class Out> void buildModel(Src& s, M& m, RefStack& st, const std::vector<Out>& labels, bool seen, int output) {
    addLayers(m, st); if (output == 2) m.setOutputLabels(labels, my_cnn::SOFTMAX); else if (output == 1) m.setOutputLabels(labels, my_cnn::UNSPECIFIED_OUTPUT);
    if (seen) {
        SimpleMatrix<double> x(st.in.d(), 0.5); size_t n = m.layers.size(); for (size_t i = 0; i < n; i++) x = m.layers[i]->propagateForward(std::move(x), 0);
        double sc = paramScale(s); for (size_t i = 0; i < st.L.size(); i++) { for (auto& v : st.L[i].W.v) v *= sc; for (auto& v : st.L[i].b.v) v *= sc; } setParams(m, st);
    }
}
