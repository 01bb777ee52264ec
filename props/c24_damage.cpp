// C24: damaged model files, crash points of a save, unwritable destinations.
#include "modelfile.h"
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <csignal>
using namespace my_cnn;
enum { REFUSED, LOADED };
template<class M> int load(const std::string& path, std::unique_ptr<M>& m) { m = std::make_unique<M>(); try { return m->loadModel(path) ? LOADED : REFUSED; } catch (const std::exception&) { return REFUSED; } }
template<class Out> std::vector<Out> plainLabels(Src& s, int n) { std::vector<Out> v; for (int i = 0; i < n; i++) if constexpr (std::is_same_v<Out, std::string>) v.push_back(s.boolean() ? "class " + std::to_string(i) : std::string(1, (char)('a' + i))); else v.push_back((Out)(i * 7 - 3)); return v; }
template<class Out> struct Made { RefStack st; std::vector<Out> labels; ModelDescription<double, Out> m; std::string text; size_t need; };   // need: characters without which the file is incomplete
template<class Out> void makeFile(Src& s, Made<Out>& a, const std::string& path, int maxl = 4, int side = 4) {
    a.st = genStack(s, StackOpts{maxl, side, false, true}); int out = s.chance(1, 6) ? 1 : 2; a.labels = plainLabels<Out>(s, a.st.labels); if (out == 1 && s.boolean()) a.labels.clear(); buildModel(s, a.m, a.st, a.labels, !s.chance(1, 6), out); REQUIRE(a.m.saveModel(path), "saveModel reports failure"); a.text = slurp(path);
    size_t last = a.text.find_last_not_of(" \n\r\t"); REQUIRE(last != std::string::npos, "empty model file"); a.need = last + 1 + (a.labels.empty() ? 0 : 1);
}
template<class M> void probe(M& m) { for (auto& l : m.layers) { (void)l->serialize(); } }
template<class Out> void same(ModelDescription<double, Out>& b, const Made<Out>& a, const std::string& p2) { REQUIRE(b.saveModel(p2), "loaded model cannot be saved"); std::string t = slurp(p2); REQUIRE(t == a.text, "file missing only trailing blanks loads as another model"); }
template<class Out> void truncated(Ctx& c) {
    Src& s = c.s; std::string p = pbt::scratchDir() + "/a", q = pbt::scratchDir() + "/b"; Made<Out> a; makeFile(s, a, p, 3, 3); c.log(a.st.name()); c.nontrivial = true; std::vector<size_t> cuts; size_t N = a.text.size();
    for (size_t i = N > 40 ? N - 40 : 0; i <= N; i++) cuts.push_back(i);
    if (N <= 400) for (size_t i = 0; i + 40 < N; i++) cuts.push_back(i);
    else { for (int i = 0; i < 40; i++) cuts.push_back(s.draw(N - 1)); for (size_t i = 0; i < N; i++) if (a.text[i] == '\n' && cuts.size() < 200) { cuts.push_back(i); cuts.push_back(i + 1); } }
    for (size_t k : cuts) {
        spit(q, a.text.substr(0, k)); std::unique_ptr<ModelDescription<double, Out>> b; int r = load(q, b);
        if (r == LOADED && k < a.need) pbt::fail("model file of ", a.st.name(), " cut after ", k, " of ", N, " characters loads as complete; last line: '", a.text.substr(a.text.rfind('\n', k ? k - 1 : 0) + 1, 40), "'");
        if (r == LOADED) same(*b, a, q); else { REQUIRE(k < N, "the complete file is refused"); probe(*b); } 
    }
    c.label("prefixes", (long)cuts.size());
}
PROP(truncated, 2) { if (c.s.chance(1, 4)) truncated<int>(c); else truncated<std::string>(c); }
static std::vector<std::string> lines(const std::string& t) { std::vector<std::string> v; std::string cur; for (char ch : t) if (ch == '\n') { v.push_back(cur); cur.clear(); } else cur += ch; if (!cur.empty()) v.push_back(cur); return v; }
static std::string join(const std::vector<std::string>& v) { std::string t; for (auto& l : v) t += l + "\n"; return t; }
template<class Out> void corrupted(Ctx& c) {
    Src& s = c.s; std::string p = pbt::scratchDir() + "/c", q = pbt::scratchDir() + "/d"; Made<Out> a; makeFile(s, a, p); auto L = lines(a.text); size_t lab = L.size(); for (size_t i = L.size(); i-- > 0;) if (L[i].rfind("Output labels", 0) == 0) { lab = i; break; } REQUIRE(lab < L.size(), "no label section in the file");
    // classify the lines before the label section by what they are
    std::vector<size_t> header, keyword, numeric, shape, dims; bool afterMat = false;
    for (size_t i = 0; i < lab; i++) {
        const std::string& l = L[i]; if (l.empty()) continue; bool letter = false; for (char ch : l) letter |= isalpha((unsigned char)ch) != 0;
        if (l[0] == '(') header.push_back(i); else if (letter) { keyword.push_back(i); if (l.find_first_of("0123456789") != std::string::npos) dims.push_back(i); } else { numeric.push_back(i); if (afterMat) shape.push_back(i); }
        afterMat = l == "weights" || l == "biases";
    }
    keyword.push_back(lab); std::string what; auto hit = [&](std::string& l, bool (*want)(char)) { std::vector<size_t> pos; for (size_t i = 0; i < l.size(); i++) if (want(l[i])) pos.push_back(i); if (pos.empty()) return false; l[pos[s.draw(pos.size() - 1)]] = s.pick({'#', '@', '%', '~'}); return true; };
    auto M = L; bool done = false;
    switch (s.weighted({2, 3, 4, 2, 3, 2, 2, 2, 2, 2})) {
        case 0: if (!header.empty()) { size_t i = s.pick(header); switch (s.range(0, 3)) { case 0: done = hit(M[i], [](char) { return true; }); break; case 1: M.erase(M.begin() + (long)i); done = true; break; case 2: M[i].clear(); done = true; break; default: { size_t d = M[i].find_first_of("0123456789"); M[i][d] = (char)(M[i][d] == '9' ? '0' : M[i][d] + 1); done = true; } } what = "section header"; } break;
        case 1: { size_t i = s.pick(keyword); if (i != lab && s.chance(1, 3)) { M.erase(M.begin() + (long)i); done = true; } else done = hit(M[i], [](char ch) { return isalpha((unsigned char)ch) != 0; }); what = "keyword"; break; }
        case 2: if (!numeric.empty()) { done = hit(M[s.pick(numeric)], [](char ch) { return strchr("0123456789.-", ch) != nullptr && ch; }); what = "stored number"; } break;
        case 3: { std::vector<size_t> d = dims; d.push_back(lab); done = hit(M[s.pick(d)], [](char ch) { return isdigit((unsigned char)ch) != 0; }); what = "setting"; break; }
        case 4: {       // shapes that contradict the stored matrices
            if (!shape.empty()) { size_t i = s.pick(shape); int b[3]; if (sscanf(M[i].c_str(), "%d %d %d", b, b + 1, b + 2) == 3 && b[0] * b[1] * b[2] > 0) { int k = s.range(0, 2), o = b[k]; b[k] = s.pick({o + 1, o + 7, -o, o - 1, o * 1000, 0}); if (b[k] == o) b[k] = o + 1; M[i] = std::to_string(b[0]) + " " + std::to_string(b[1]) + " " + std::to_string(b[2]); done = true; what = "stored shape"; } }
            break;
        }
        case 5: {       // declared layer dimensions that contradict the stored matrices (only where matrices follow)
            std::vector<size_t> d; for (size_t i : dims) { bool mat = false; for (size_t j = i + 1; j < lab && (L[j].empty() || L[j][0] != '('); j++) if (L[j] == "weights") { mat = true; break; } if (mat && L[i].rfind("stride", 0) != 0) d.push_back(i); }
            if (!d.empty()) { size_t i = s.pick(d); size_t sp = M[i].find(' '); int o = atoi(M[i].c_str() + sp); int n = s.pick({o + 1, -o, o + 10, 0, o + 100000}); if (n == o) n = o + 1; M[i] = M[i].substr(0, sp + 1) + std::to_string(n); done = true; what = "declared dimension"; }
            break;
        }
        case 6: {       // windows and strides that no layer can have
            std::vector<size_t> d; bool pool = false; for (size_t i = 0; i < lab; i++) { if (!L[i].empty() && L[i][0] == '(') pool = L[i + 1] == "Pooling"; size_t sp = L[i].find(' '); bool num = sp != std::string::npos && i && L[i][0] != '(' && isdigit((unsigned char)L[i][sp + 1]); if (num && (pool || L[i].rfind("stride ", 0) == 0)) d.push_back(i); }
            if (!d.empty()) { size_t i = s.pick(d), sp = M[i].find(' '); int o = atoi(M[i].c_str() + sp); M[i] = M[i].substr(0, sp + 1) + s.pick({std::string("0"), std::string("-1"), std::to_string(-o)}); done = true; what = "window or stride"; }
            break;
        }
        case 7: {       // a well-formed matrix of another shape in place of a layer's own
            std::vector<size_t> w; bool unused = false; for (size_t i : shape) { int b[3]; if (sscanf(M[i].c_str(), "%d %d %d", b, b + 1, b + 2) == 3 && b[0] * b[1] * b[2] > 0 && (M[i - 1] == "weights" || !unused)) w.push_back(i); if (M[i - 1] == "weights") unused = w.empty() || w.back() != i; }       // a layer never used announces no dimensions
            if (!w.empty()) {
                size_t i = s.pick(w); int b[3]; if (sscanf(M[i].c_str(), "%d %d %d", b, b + 1, b + 2) != 3) break; int o[3] = {b[0], b[1], b[2]}; if (s.chance(1, 4)) std::rotate(b, b + 1, b + 3); else b[s.range(0, 2)] += s.boolean() ? 1 : s.range(-1, 5); for (int k = 0; k < 3; k++) b[k] = std::max(b[k], 0); if (std::equal(b, b + 3, o)) b[0]++;
                if (M[i - 1] == "weights" && b[0] * b[1] * b[2] == 0) { b[0] = o[0] + 1; b[1] = o[1]; b[2] = o[2]; }       // an empty weight matrix is a layer never used
                std::ostringstream t; SimpleMatrix<double>(dim3(b[0], b[1], b[2]), 0.25).serialize(t); auto mine = lines(t.str()), old = lines([&] { std::ostringstream u; SimpleMatrix<double>(dim3(o[0], o[1], o[2]), 0.0).serialize(u); return u.str(); }()); if (i + old.size() > lab) break;
                M.erase(M.begin() + (long)i, M.begin() + (long)(i + old.size())); M.insert(M.begin() + (long)i, mine.begin(), mine.end()); done = true; what = "matrix replaced by one of another shape";
            }
            break;
        }
        case 8: { size_t sp = M[lab].rfind(' '); int n = (int)a.labels.size(), k = s.pick({n - 1, n + 1, n + 2, 0, -1, -n, n * 10, n / 2}); if (k == n) k = n + 1; M[lab] = M[lab].substr(0, sp + 1) + std::to_string(k); done = true; what = "number of labels"; break; }
        default: if constexpr (!std::is_same_v<Out, std::string>) { if (!a.labels.empty()) { done = hit(M[lab + 1 + s.draw(a.labels.size() - 1)], [](char ch) { return isdigit((unsigned char)ch) != 0; }); what = "numeric label"; } }
    }
    if (!done || M == L) { c.label("no damage possible"); return; }
    std::string t = join(M); spit(q, t); size_t at = 0; while (at < M.size() && at < L.size() && M[at] == L[at]) at++; std::string ctx = "line " + std::to_string(at + 1) + " '" + (at < L.size() ? L[at] : "") + "' became '" + (at < M.size() ? M[at] : "") + "'"; c.log(a.st.name(), " ", what, ": ", ctx); c.label(what); c.nontrivial = true;
    std::unique_ptr<ModelDescription<double, Out>> b; REQUIRE(load(q, b) == REFUSED, "file with a corrupted ", what, " loads as valid: ", ctx); probe(*b);
}
PROP(corrupted, 4) { if (c.s.chance(1, 3)) corrupted<int>(c); else corrupted<std::string>(c); }
// anything at all: only memory safety and termination
PROP(garbage, 2) {
    Src& s = c.s; std::string p = pbt::scratchDir() + "/e"; std::string t; c.nontrivial = true;
    if (s.boolean()) {
        Made<std::string> a; makeFile(s, a, p); t = a.text; int n = s.range(1, 10);
        for (int i = 0; i < n && !t.empty(); i++) { size_t k = s.draw(t.size() - 1); switch (s.range(0, 5)) { case 0: t[k] = (char)s.draw(255); break; case 1: t.erase(k, 1 + s.draw(20)); break; case 2: t.insert(k, s.pick({std::string("9"), std::string("-"), std::string("\n"), std::string("0"), std::string(" "), std::string("."), std::string("e9"), std::string("2147483648"), std::string("99999")})); break; case 3: { size_t m = 1 + s.draw(60), k2 = s.draw(t.size() - 1); t.insert(k, t.substr(k2, m)); break; } case 4: { size_t b = t.rfind('\n', k), e = t.find('\n', k); if (b != std::string::npos && e != std::string::npos) t.erase(b, e - b); break; } default: t.resize(k); } }
        c.label("edited file");
    } else {
        static const char* tok[] = {"(0) ----------\n", "(1) ----------\n", "(2) ----------\n", "Kernel\n", "Pooling\n", "Connected Layer\n", "Activation\n", "Softmax\n", "MAX\n", "AVG\n", "RELU\n", "x ", "y ", "z ", "n ", "weights\n", "biases\n", "stride\n", "Output labels ", "1\n", "2\n", "-1\n", "0\n", "99999999\n", "1 1 1\n", "0 0 0\n", "2 2 1\n", "1.5 ", "\n", " "};
        int n = s.range(0, 40); for (int i = 0; i < n; i++) if (s.chance(1, 8)) t += (char)s.draw(255); else t += tok[s.draw(29)]; c.label("arbitrary text"); c.nontrivial = n > 2;
    }
    c.log(t.substr(0, 300)); spit(p, t); std::unique_ptr<ModelDescription<double, std::string>> b; int r = load(p, b); c.label(r == LOADED ? "accepted" : "refused"); probe(*b); std::unique_ptr<ModelDescription<double, int>> b2; load(p, b2);
}
// saving with the disk full after any number of bytes, and to paths that cannot be written
PROP(save_faults, 2) {
    Src& s = c.s; std::string d = pbt::scratchDir(), p = d + "/f"; Made<std::string> a; makeFile(s, a, p, s.chance(1, 4) ? 8 : 4, s.chance(1, 4) ? 9 : 4); c.nontrivial = true; c.log(a.st.name(), " ", a.text.size(), " bytes");
    switch (s.weighted({4, 1, 1, 1, 1})) {
        case 0: {
            std::vector<size_t> cuts; for (int i = 0; i < 4; i++) cuts.push_back(s.draw(a.text.size() - 1)); cuts.push_back(a.text.size() - 1); signal(SIGXFSZ, SIG_IGN); c.label("disk full after n bytes");
            for (size_t k : cuts) {
                if (s.boolean()) ::unlink(p.c_str()); struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = k; setrlimit(RLIMIT_FSIZE, &lim); bool ok = a.m.saveModel(p); setrlimit(RLIMIT_FSIZE, &old);
                REQUIRE(!ok, "saveModel reports success although only ", k, " of ", a.text.size(), " bytes could be written"); std::string t = slurp(p); std::unique_ptr<ModelDescription<double, std::string>> b; int r = load(p, b); if (r == LOADED) same(*b, a, d + "/g"); 
                if (t.size() < a.need) REQUIRE(r == REFUSED, "partially written file of ", t.size(), " bytes loads as complete");
            }
            ::unlink(p.c_str()); REQUIRE(a.m.saveModel(p) && slurp(p) == a.text, "saving after a failed attempt"); break;
        }
        case 1: REQUIRE(!a.m.saveModel(d + "/none/such/file"), "saving into a directory that does not exist reports success"); c.label("missing directory"); break;
        case 2: REQUIRE(!a.m.saveModel(d), "saving to a directory reports success"); c.label("directory"); break;
        case 3: REQUIRE(!a.m.saveModel("/dev/full"), "saving to a full device reports success"); c.label("full device"); break;
        default: REQUIRE(!a.m.saveModel(""), "saving to an empty file name reports success"); c.label("empty name");
    }
    std::unique_ptr<ModelDescription<double, std::string>> b; REQUIRE(load(d + "/none/such/file", b) == REFUSED, "a missing file loads"); REQUIRE(load(d, b) == REFUSED, "a directory loads"); spit(p, ""); REQUIRE(load(p, b) == REFUSED, "an empty file loads");
}
