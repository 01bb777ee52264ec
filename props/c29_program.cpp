// C29: the training program (src/main.cpp, compiled into this harness) on generated datasets.
#include "nnref.h"
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <unistd.h>
#include <atomic>
// The C library's generator, replaced: the library's own draws (it reads rand()) become ordinary random numbers mixed with extreme ones.
static std::atomic<int> rmode{0}; static std::atomic<uint64_t> rstate{1};
extern "C" void srand(unsigned) noexcept {}
extern "C" int rand(void) noexcept {
    uint64_t k = rstate.fetch_add(0x9E3779B97F4A7C15ull), z = (k ^ (k >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31; int r = (int)(z & 0x7FFFFFFF);
    switch (rmode.load()) {
    case 1: return r % 3 ? r : r % 2 ? RAND_MAX : 0; case 2: return r % 16 ? r : RAND_MAX;
    default: return r; }
}
#define DATA_DIR "."
#define main repo_main
#include "main.cpp"
#undef main
struct Capture {
    int fd, old; Capture() { std::cout.flush(); fflush(stdout); old = dup(1); fd = memfd_create("out", 0); dup2(fd, 1); }
    std::string stop() { if (fd < 0) return ""; std::cout.flush(); fflush(stdout); std::string t; char buf[65536]; lseek(fd, 0, SEEK_SET); ssize_t n; while ((n = read(fd, buf, sizeof buf)) > 0) t.append(buf, (size_t)n); dup2(old, 1); close(old); close(fd); fd = -1; return t; }
    ~Capture() { stop(); }
};
static std::string be(uint32_t v) { return {(char)(v >> 24), (char)(v >> 16), (char)(v >> 8), (char)v}; }
struct Set { int n, h, w; std::vector<std::string> px; std::vector<int> lab; };
static Set genSet(Src& s, int n, int h, int w, int label) { Set d{n, h, w, {}, {}}; Bulk b(s.draw(0xFFFFFF)); int sparse = s.range(0, 2); for (int i = 0; i < n; i++) { std::string p; for (int k = 0; k < h * w; k++) p += (char)(sparse == 0 ? b.below(256) : sparse == 1 ? (b.below(5) ? 0 : b.below(256)) : (i * 37 + k * (i % 5 + 1)) % 256); d.px.push_back(p); d.lab.push_back(label >= 0 ? label : (int)b.below(10)); } return d; }
static void writeSet(const Set& d, const std::string& name) {
    std::ofstream f("./MNIST " + name + " Images.ubyte-img", std::ios::binary | std::ios::trunc), g("./MNIST " + name + " Labels.ubyte-label", std::ios::binary | std::ios::trunc); f << be(2051) << be((uint32_t)d.n) << be((uint32_t)d.h) << be((uint32_t)d.w); g << be(2049) << be((uint32_t)d.n); for (int i = 0; i < d.n; i++) { f << d.px[(size_t)i]; g << (char)d.lab[(size_t)i]; }
}
static SimpleMatrix<float> image(const Set& d, int i) { SimpleMatrix<float> m(dim3(d.h, d.w, 1)); for (int r = 0; r < d.h; r++) for (int k = 0; k < d.w; k++) m(r, k, 0) = ((int)(unsigned char)d.px[(size_t)i][(size_t)(r * d.w + k)] - 128) / 255.0f; return m; }
static double number(const std::string& t, const std::string& after) { size_t p = t.rfind(after); REQUIRE(p != std::string::npos, "the program does not report '", after, "'"); return atof(t.c_str() + p + after.size()); }
// out at q starts with pic, numbers allowed to be off by one
static bool startsLike(const std::string& out, size_t q, const std::string& pic) { size_t i = 0; while (i < pic.size()) { if (q >= out.size()) return false; if (isdigit((unsigned char)pic[i]) && isdigit((unsigned char)out[q])) { int a = 0, b = 0; while (i < pic.size() && isdigit((unsigned char)pic[i])) a = a * 10 + (pic[i++] - '0'); while (q < out.size() && isdigit((unsigned char)out[q])) b = b * 10 + (out[q++] - '0'); if (std::abs(a - b) > 1) return false; } else if (pic[i++] != out[q++]) return false; } return true; }
static void program(Ctx& c, bool constant) {
    Src& s = c.s; REQUIRE(chdir(pbt::scratchDir().c_str()) == 0, "scratch directory"); int h = s.range(12, 20), w = s.range(12, 20), label = constant ? s.range(0, 9) : -1; if (constant) h = w = s.range(12, 14);
    int ntr = constant ? s.range(3000, 3600) : s.boolean() ? s.range(2, 40) : s.range(2, 130), nte = constant ? s.range(20, 60) : s.range(1, 60); Set tr = genSet(s, ntr, h, w, label), te = genSet(s, nte, h, w, label); writeSet(tr, "Train"); writeSet(te, "Test"); bool named = constant || s.chance(5, 6); c.log(ntr, " training and ", nte, " test images of ", h, "x", w, named ? ", saved" : "", constant ? ", one label" : ""); c.nontrivial = named && nte > 1; c.label(named ? "saved" : "not saved"); c.label(ntr - 1 < 32 ? "less than one batch" : "several batches");
    std::string nm = s.boolean() ? "out" : "some name", file = "./" + nm + ".model_data"; ::unlink(file.c_str()); std::string a0 = "prog"; char* argv[] = {a0.data(), nm.data(), nullptr}; int rc; std::string out; int rm = constant ? 0 : s.range(0, 2); rstate = s.draw(0xFFFFFFFF); rmode = rm; if (rm) c.label("extreme draws"); { Capture cap; rc = repo_main(named ? 2 : 1, argv); out = cap.stop(); }
    REQUIRE(rc == 0, "exit status ", rc); double acc = number(out, "Validation accuracy was "), cnt = acc * nte / 100; REQUIRE(acc >= 0 && acc <= 100 && std::fabs(cnt - std::round(cnt)) < 0.01, "reported accuracy ", acc, "% of ", nte, " images");
    for (int e = 0; e < 2; e++) { double tacc = number(out, "Epoch " + std::to_string(e) + ": Accuracy was "); REQUIRE(ntr < 2 || (tacc >= 0 && tacc <= 100), "training accuracy of epoch ", e, " is ", tacc, "%"); if (constant && e == 1) REQUIRE(tacc > 90, "only ", tacc, "% training accuracy in the last epoch although every image has label ", label); }
    std::ifstream f(file); REQUIRE(f.is_open() == named, named ? "no model file was written" : "a model file was written without being asked for"); f.close(); if (!named) return;
    my_cnn::ModelDescription<float, std::string> m; REQUIRE(m.loadModel(file), "the written model file cannot be loaded"); REQUIRE(m.output_labels.size() == 10, "the loaded model has ", m.output_labels.size(), " labels"); int lo = 0, hi = 0;
    for (int i = 0; i < nte; i++) { auto r = m.forwardPropagation(image(te, i)); const auto& p = r.layer_inputs.back(); int t = te.lab[(size_t)i]; bool ok = m.output_labels[r.label_idx] == std::to_string(t); bool close = false; for (size_t k = 0; k < p.size(); k++) if (k != r.label_idx && p[r.label_idx] - p[k] < 1e-4f) close = true; lo += ok && !close; hi += ok || close; }
    REQUIRE((int)std::round(cnt) >= lo && (int)std::round(cnt) <= hi, "the program reports ", cnt, " of ", nte, " test images correct, the model it saved gets ", lo, lo == hi ? "" : " to ", lo == hi ? "" : std::to_string(hi)); if (lo != hi) c.label("near ties"); else c.label("exact");
    // the samples it shows
    size_t q = 0, shown = 0; static const std::string H = "This image is a ", A = " (actual label "; while ((q = out.find(H, q)) != std::string::npos) {
        q += H.size(); size_t a = out.find(A, q), e = a == std::string::npos ? a : out.find(")\n", a); REQUIRE(e != std::string::npos, "malformed sample: ", out.substr(q, 60)); std::string said = out.substr(q, a - q), act = out.substr(a + A.size(), e - a - A.size()); bool ok = false; q = e + 2;
        for (int i = 0; i < nte && !ok; i++) { if (std::to_string(te.lab[(size_t)i]) != act) continue; std::string pic; { Capture cap; my_cnn::printImage(image(te, i)); pic = cap.stop(); } if (!startsLike(out, q, pic)) continue; auto r = m.forwardPropagation(image(te, i)); const auto& p = r.layer_inputs.back(); for (size_t k = 0; k < p.size(); k++) ok |= m.output_labels[k] == said && p[r.label_idx] - p[k] < 1e-4f; }
        REQUIRE(ok, "the program shows a sample with label ", act, " and prediction ", said, ", which is no test image with that label, picture and prediction"); shown++;
    }
    if (shown) c.label("samples shown");
    if (constant) REQUIRE(lo == nte, "after training only on label ", label, " the model gets ", lo, " of ", nte, " test images of that label right");
    for (auto& l : m.layers) for (size_t i = 0; i < l->weights.size(); i++) REQUIRE(std::isfinite(l->weights[i]), "non-finite weights after training");
}
PROP_ND(program, 30) { program(c, false); }
#ifndef __SANITIZE_THREAD__
PROP_ND(one_label, 2) { c.label("one label"); program(c, true); }
#endif
#ifdef HAVE_GEN
// what the program trains on
PROP(data_source, 30) {
    Src& s = c.s; REQUIRE(chdir(pbt::scratchDir().c_str()) == 0, "scratch directory"); Set d = genSet(s, s.range(1, 30), s.range(1, 8), s.range(1, 8), -1); writeSet(d, "Gen"); MNistGenerator g("./MNIST Gen Images.ubyte-img", "./MNIST Gen Labels.ubyte-label"); c.log(d.n, " images of ", d.h, "x", d.w); c.nontrivial = d.n > 2; int epochs = s.range(1, 3);
    for (int e = 0; e < epochs; e++) {
        int stop = s.chance(1, 3) ? s.range(0, d.n) : d.n, got = 0, first = -1;
        while (g.hasAvailableData() && got < stop) { auto x = g.getNextDataPoint(); if (first < 0) { first = d.n - (int)g.size(); REQUIRE(first == 0 || first == 1, "the data source offers ", g.size(), " of ", d.n, " images"); } int i = first + got; REQUIRE(i < d.n, "more images than in the file"); REQUIRE(x.label == std::to_string(d.lab[(size_t)i]), "image ", i, " has label ", x.label, " instead of ", d.lab[(size_t)i]); auto w = image(d, i); REQUIRE(fromDim(x.data.dim()) == fromDim(w.dim()), "image ", i, " has shape ", fromDim(x.data.dim())); for (size_t k = 0; k < w.size(); k++) REQUIRE(std::fabs(w[k] - x.data[k]) < 1e-6f, "image ", i, " differs"); got++; }
        if (stop == d.n) REQUIRE(got == (int)g.size(), "an epoch has ", got, " images but size() is ", g.size()); else c.label("reset early"); g.reset();
    }
}
#endif
