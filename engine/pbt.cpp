#include "pbt.h"
#include <algorithm>
#include <unordered_set>
#include <set>
#include <fstream>
#include <iostream>
#include <chrono>
#include <cstdlib>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

namespace pbt {

int  g_tier = 0;
bool g_verbose = false;
static std::string g_dir = ".";
static Shared* g_sh = nullptr;
static int g_cpu_limit = 60;          // CPU seconds for one case
static const double STALL_WALL = 100; // wall seconds without progress in one case

std::vector<Prop>& props() { static std::vector<Prop> p; return p; }

// ------------------------------------------------------------------ choices
static uint64_t splitmix(uint64_t& x) { x += 0x9E3779B97F4A7C15ull; uint64_t z = x; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }

Src Src::random(uint64_t seed, Shared* sh) { Src s; s.mode_ = RANDOM; for (auto& v : s.s_) v = splitmix(seed); s.sh_ = sh; sh->n = 0; return s; }
Src Src::replay(const std::vector<uint64_t>& c, Shared* sh) { Src s; s.mode_ = REPLAY; s.rep_ = &c; s.sh_ = sh; sh->n = 0; return s; }
Src Src::bytes(const uint8_t* d, size_t n, Shared* sh) { Src s; s.mode_ = BYTES; s.d_ = d; s.dn_ = n; s.sh_ = sh; sh->n = 0; return s; }

uint64_t Src::next() {
    const uint64_t r = rotl(s_[1] * 5, 7) * 9, t = s_[1] << 17;
    s_[2] ^= s_[0]; s_[3] ^= s_[1]; s_[1] ^= s_[2]; s_[0] ^= s_[3]; s_[2] ^= t; s_[3] = rotl(s_[3], 45);
    return r;
}

uint64_t Src::draw(uint64_t max) {
    uint32_t n = sh_->n;
    if (n >= MAXC) throw Discard{};
    uint64_t v = 0;
    switch (mode_) {
        case RANDOM: v = max == UINT64_MAX ? next() : next() % (max + 1); break;
        case REPLAY: v = n < rep_->size() ? std::min((*rep_)[n], max) : 0; break;
        case BYTES: {
            if (max) {
                int nb = 0; for (uint64_t m = max; m; m >>= 8) nb++;
                for (int i = 0; i < nb && dp_ < dn_; i++) v = (v << 8) | d_[dp_++];
                if (max != UINT64_MAX) v %= (max + 1);
            }
            break;
        }
    }
    sh_->ch[n] = v;
    sh_->n = n + 1;
    return v;
}

static uint64_t hash_bytes(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; } return h; }
static uint64_t case_seed(uint64_t seed, uint64_t idx) { uint64_t x = seed * 0xD1342543DE82EF95ull + idx * 0x2545F4914F6CDD1Dull + hash_bytes("pbt"); splitmix(x); return splitmix(x); }
static int case_prop(uint64_t seed, uint64_t idx) {
    uint64_t tot = 0; for (auto& p : props()) tot += p.weight;
    uint64_t x = seed ^ (idx * 0x9E3779B97F4A7C15ull) ^ 0xABCDEF; uint64_t r = splitmix(x) % tot;
    for (size_t i = 0; i < props().size(); i++) { if (r < props()[i].weight) return (int)i; r -= props()[i].weight; }
    return 0;
}

static Shared* new_shared() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(99); }
    return (Shared*)p;
}

static std::string g_scratch;
std::string scratchDir() {
    if (g_scratch.empty()) {
        std::string t = g_dir + "/scratch-XXXXXX";
        std::vector<char> b(t.begin(), t.end()); b.push_back(0);
        if (!mkdtemp(b.data())) { perror("mkdtemp"); _exit(99); }
        g_scratch = b.data();
    }
    return g_scratch;
}
static void rmScratch() {
    if (g_scratch.empty()) return;
    if (DIR* d = opendir(g_scratch.c_str())) {
        while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") unlink((g_scratch + "/" + n).c_str()); }
        closedir(d);
    }
    rmdir(g_scratch.c_str());
    g_scratch.clear();
}

// ------------------------------------------------------------------ running one case in this process
enum Outcome { PASS, FAILED, DISCARDED };

static Outcome run_case(const Prop& p, Src& src, Shared* sh, Ctx& c) {
    std::string msg;
    try { p.fn(c); return PASS; }
    catch (const Discard&) { return DISCARDED; }
    catch (const Fail& f) { msg = f.msg; }
    catch (const std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); }
    catch (...) { msg = "unexpected exception of unknown type"; }
    msg = "[" + p.name + "] " + msg;
    size_t n = std::min(msg.size(), sizeof(sh->msg) - 1);
    memcpy(sh->msg, msg.data(), n); sh->msg[n] = 0;
    sh->state = 2;
    return FAILED;
}

static void on_cpu(int) {
    if (g_sh) { g_sh->state = 3; snprintf(g_sh->msg, sizeof g_sh->msg, "the case used more than %d s of CPU time (such cases normally take milliseconds)", g_cpu_limit); }
    _exit(97);
}
static void arm_cpu() { itimerval t{}; t.it_value.tv_sec = g_cpu_limit; setitimer(ITIMER_PROF, &t, nullptr); }

static void quiet(const std::string& errfile) {
    int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); close(fd);
    fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 2); close(fd);
}

static std::string crash_summary(const std::string& errfile, int status) {
    std::ostringstream o;
    if (WIFSIGNALED(status)) o << "killed by signal " << WTERMSIG(status); else o << "process exited with status " << WEXITSTATUS(status);
    std::ifstream f(errfile); std::string l, first; int frames = 0; std::string extra;
    while (std::getline(f, l)) {
        if (l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("runtime error:") != std::string::npos || l.find("Assertion") != std::string::npos ||
            l.find("WARNING: ThreadSanitizer") != std::string::npos || l.find("terminate called") != std::string::npos || l.find("what():") != std::string::npos || l.find("SUMMARY:") != std::string::npos) extra += " | " + l.substr(0, 300);
        else if (frames < 14 && l.find("    #") == 0 && l.find("/repo/") != std::string::npos) { extra += " | " + l.substr(0, 200); frames++; }
    }
    o << extra.substr(0, 5000);
    return o.str();
}

struct ReplayResult { bool failed = false; bool discarded = false; std::string msg; std::vector<uint64_t> used; std::string desc; };

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// wait for pid, killing it when it makes no progress
static int wait_child(pid_t pid, Shared* sh, bool& stalled, double limit = STALL_WALL) {
    int st = 0; double t0 = now(); uint64_t prog = sh->progress; useconds_t us = 300; stalled = false;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) return st;
        if (r < 0) return 0;
        if (sh->progress != prog) { prog = sh->progress; t0 = now(); }
        if (now() - t0 > limit) { stalled = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); return st; }
        usleep(us); if (us < 20000) us = us * 3 / 2;
    }
}

static ReplayResult replay_in_child(int prop, const std::vector<uint64_t>& choices, bool verbose) {
    static Shared* sh = new_shared();
    sh->n = 0; sh->state = 0; sh->msg[0] = 0; sh->progress = 0;
    std::string errf = g_dir + "/replay.err", descf = g_dir + "/replay.desc";
    unlink(descf.c_str());
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        g_sh = sh; g_scratch.clear(); quiet(errf); g_verbose = verbose;
        signal(SIGPROF, on_cpu); arm_cpu();
        sh->state = 1;
        Src s = Src::replay(choices, sh); Ctx c(s);
        Outcome o = run_case(props()[prop], s, sh, c);
        if (verbose) { std::ofstream(descf) << c.desc.str(); }
        rmScratch();
        if (o == PASS) sh->state = 0;
        fflush(nullptr);
        _exit(o == PASS ? 0 : o == FAILED ? 1 : 5);
    }
    bool stalled; int st = wait_child(pid, sh, stalled);
    ReplayResult r; r.used.assign(sh->ch, sh->ch + sh->n);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {}
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 5) r.discarded = true;
    else { r.failed = true; r.msg = stalled ? "no progress for a long time (deadlock?)" : (sh->state == 2 || sh->state == 3) ? std::string(sh->msg) : "[" + props()[prop].name + "] crash: " + crash_summary(errf, st); }
    if (verbose) { std::ifstream f(descf); std::stringstream b; b << f.rdbuf(); r.desc = b.str(); }
    return r;
}

// A history replay: the cases idx0, idx0+step, ... , idx (same seed) in one process.
static ReplayResult history_in_child(uint64_t seed, uint64_t idx0, uint64_t step, uint64_t idx) {
    static Shared* sh = new_shared();
    sh->n = 0; sh->state = 0; sh->msg[0] = 0; sh->progress = 0;
    std::string errf = g_dir + "/replay.err";
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        g_sh = sh; g_scratch.clear(); quiet(errf);
        signal(SIGPROF, on_cpu);
        for (uint64_t i = idx0; i <= idx; i += step) {
            sh->progress++; arm_cpu(); sh->state = 1;
            Src s = Src::random(case_seed(seed, i), sh); Ctx c(s);
            if (run_case(props()[case_prop(seed, i)], s, sh, c) == FAILED) { rmScratch(); _exit(1); }
        }
        sh->state = 0; rmScratch(); _exit(0);
    }
    bool stalled; int st = wait_child(pid, sh, stalled);
    ReplayResult r;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { r.failed = true; r.msg = stalled ? "no progress for a long time" : (sh->state == 2 || sh->state == 3) ? std::string(sh->msg) : "crash: " + crash_summary(errf, st); }
    return r;
}

// ------------------------------------------------------------------ shrinking
static std::vector<uint64_t> shrink(int prop, std::vector<uint64_t> best, double budget_s, int max_tries, int& tries, int attempts_per_try) {
    double t0 = now(); tries = 0;
    auto out = [&] { return tries >= max_tries || now() - t0 > budget_s; };
    auto smaller = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; };
    auto attempt = [&](std::vector<uint64_t> cand) -> bool {
        for (int k = 0; k < attempts_per_try; k++) {
            if (out()) return false;
            tries++;
            ReplayResult r = replay_in_child(prop, cand, false);
            if (r.failed) {
                std::vector<uint64_t> u = r.used;
                while (!u.empty() && u.back() == 0) u.pop_back();
                if (smaller(u, best)) { best = u; return true; }
                return false;
            }
        }
        return false;
    };
    while (!best.empty() && best.back() == 0) best.pop_back();
    bool progress = true;
    while (progress && !out()) {
        progress = false;
        for (size_t k : {256, 64, 16, 8, 4, 3, 2, 1}) {           // delete blocks
            if (k > best.size()) continue;
            for (size_t i = best.size() - k + 1; i-- > 0 && !out();) {
                if (i + k > best.size()) continue;
                auto cand = best; cand.erase(cand.begin() + i, cand.begin() + i + k);
                if (attempt(cand)) progress = true;
            }
        }
        for (size_t k : {16, 4, 1}) {                              // zero blocks
            for (size_t i = 0; i + k <= best.size() && !out(); i += k) {
                bool z = true; for (size_t j = i; j < i + k; j++) z = z && best[j] == 0;
                if (z) continue;
                auto cand = best; std::fill(cand.begin() + i, cand.begin() + i + k, 0);
                if (attempt(cand)) progress = true;
            }
        }
        for (size_t i = 0; i < best.size() && !out(); i++) {       // lower single choices
            if (i >= best.size() || best[i] == 0) continue;
            uint64_t lo = 0, hi = best[i];
            while (lo + 1 < hi && !out()) {
                uint64_t mid = lo + (hi - lo) / 2;
                auto cand = best; if (i >= cand.size()) break; cand[i] = mid;
                if (attempt(cand)) { progress = true; if (i >= best.size()) break; hi = std::min(mid, best[i]); } else lo = mid;
            }
            if (i < best.size() && best[i] > 0) { auto cand = best; cand[i]--; if (attempt(cand)) progress = true; }
        }
    }
    return best;
}

// ------------------------------------------------------------------ JSON
static std::string js(const std::string& s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n"; else if (ch == '\t') o += "\\t";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}

static void write_replay(const std::string& path, const std::string& prop, const std::vector<uint64_t>& ch, const std::string& msg, const std::string& desc) {
    std::ofstream f(path);
    f << "prop " << prop << "\nchoices " << ch.size();
    for (auto v : ch) f << ' ' << v;
    f << "\n# message: " << msg << "\n";
    std::istringstream d(desc); std::string l; while (std::getline(d, l)) f << "# " << l << "\n";
}

static bool read_replay(const std::string& path, std::string& prop, std::vector<uint64_t>& ch, uint64_t hist[4], bool& is_hist) {
    std::ifstream f(path); std::string k; is_hist = false; bool ok = false;
    while (f >> k) {
        if (k == "prop") f >> prop;
        else if (k == "choices") { size_t n; f >> n; ch.resize(n); for (auto& v : ch) f >> v; ok = true; }
        else if (k == "history") { for (int i = 0; i < 4; i++) f >> hist[i]; is_hist = true; ok = true; }
        else if (k[0] == '#') { std::string l; std::getline(f, l); }
    }
    return ok;
}

static int find_prop(const std::string& n) { for (size_t i = 0; i < props().size(); i++) if (props()[i].name == n) return (int)i; return -1; }

// Confirms a failing choice sequence, shrinks it, writes the replay.  Returns false if it does not reproduce.
static bool confirm_and_shrink(int prop, std::vector<uint64_t> ch, const std::string& replay_path, std::string& msg, int& tries, double budget) {
    const bool nd = props()[prop].nondet;
    int ok = 0, need = nd ? 1 : 3, lim = nd ? 40 : 3; ReplayResult r;
    for (int i = 0; i < lim && ok < need; i++) { r = replay_in_child(prop, ch, false); ok += r.failed; if (r.failed) msg = r.msg; if (r.failed && r.msg.rfind("no progress", 0) == 0) need = 1; }
    if (ok < need) return false;
    if (r.msg.rfind("no progress", 0) == 0) { msg = r.msg; write_replay(replay_path, props()[prop].name, ch, r.msg, "(a case that never ends; not shrunk)"); return true; }
    std::vector<uint64_t> s = shrink(prop, ch, budget, 6000, tries, nd ? 3 : 1);
    ok = 0; int total = nd ? 40 : 3; ReplayResult v;
    for (int i = 0; i < total && ok < need; i++) { ReplayResult q = replay_in_child(prop, s, true); ok += q.failed; if (q.failed) v = q; }
    if (ok < need) { s = ch; v = r; }
    msg = v.msg;
    write_replay(replay_path, props()[prop].name, s, v.msg, v.desc);
    return true;
}

// ------------------------------------------------------------------ workers
struct Failure { uint64_t idx; int worker; std::string msg; std::vector<uint64_t> ch; int prop; };

int runner_main(int argc, char** argv) {
    std::string cmd = argc > 1 ? argv[1] : "";
    std::map<std::string, std::string> o;
    for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
    auto num = [&](const char* k, uint64_t d) { return o.count(k) ? strtoull(o[k].c_str(), nullptr, 10) : d; };
    g_dir = o.count("--dir") ? o["--dir"] : ".";
    g_tier = (int)num("--tier", 0);
    g_cpu_limit = (int)num("--cpu", 60);
    const uint64_t seed = num("--seed", 1), N = num("--cases", 1000);
    const int W = (int)num("--workers", 8);
    const std::string replay_path = o.count("--replay") ? o["--replay"] : g_dir + "/failure.replay";
    const std::string out = o.count("--out") ? o["--out"] : g_dir + "/result.json";
    const double shrink_s = (double)num("--shrink", 60);

    if (cmd == "replay" || cmd == "confirm") {
        std::string pn; std::vector<uint64_t> ch; uint64_t h[4]; bool ih;
        if (!read_replay(o["--file"], pn, ch, h, ih)) { fprintf(stderr, "cannot read replay file\n"); return 2; }
        if (ih) { ReplayResult r = history_in_child(h[0], h[1], h[2], h[3]); printf("%s\n", r.failed ? ("FAILED " + r.msg).c_str() : "passed"); return r.failed ? 1 : 0; }
        int pi = find_prop(pn); if (pi < 0) { fprintf(stderr, "unknown prop %s\n", pn.c_str()); return 2; }
        if (cmd == "confirm") {
            std::string msg; int tries = 0; bool f = confirm_and_shrink(pi, ch, replay_path, msg, tries, shrink_s);
            printf("%s\n", f ? ("FAILED " + msg).c_str() : "passed"); return f ? 1 : 0;
        }
        ReplayResult r = replay_in_child(pi, ch, true);
        printf("%s\n%s\n", r.failed ? ("FAILED " + r.msg).c_str() : r.discarded ? "discarded" : "passed", r.desc.c_str());
        return r.failed ? 1 : 0;
    }
    if (cmd == "show") {
        uint64_t i = num("--case", 0); static Shared* sh = new_shared(); g_verbose = true;
        Src s = Src::random(case_seed(seed, i), sh); Ctx c(s); int p = case_prop(seed, i);
        Outcome oc = run_case(props()[p], s, sh, c); printf("%s %d\n%s\n", props()[p].name.c_str(), oc, c.desc.str().c_str()); rmScratch(); return oc == FAILED;
    }
    if (cmd != "run") { fprintf(stderr, "usage: run|replay|confirm|show\n"); return 2; }

    struct Stop { volatile int stop; };
    Stop* stop = (Stop*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<Shared*> sh(W); std::vector<pid_t> pid(W);
    double t0 = now();
    fflush(nullptr);
    for (int w = 0; w < W; w++) {
        sh[w] = new_shared();
        pid[w] = fork();
        if (pid[w] == 0) {
            Shared* S = sh[w]; g_sh = S;
            quiet(g_dir + "/w" + std::to_string(w) + ".err");
            signal(SIGPROF, on_cpu);
            std::map<std::string, long> labels; std::unordered_set<uint64_t> distinct; uint64_t evals = 0, disc = 0, nontriv = 0;
            int rc = 0;
            for (uint64_t i = w; i < N && !stop->stop; i += W) {
                S->case_idx = i; S->progress++; int p = case_prop(seed, i); S->prop = p;
                arm_cpu(); S->state = 1;
                Src s = Src::random(case_seed(seed, i), S); Ctx c(s);
                Outcome oc = run_case(props()[p], s, S, c);
                if (oc == FAILED) { stop->stop = 1; rc = 1; break; }
                S->state = 0;
                evals++;
                if (oc == DISCARDED) { disc++; continue; }
                labels["prop:" + props()[p].name]++;
                for (auto& l : c.labels) labels[props()[p].name + "/" + l.first]++;
                if (c.nontrivial) {
                    nontriv++;
                    uint64_t h = hash_bytes(props()[p].name); for (uint32_t k = 0; k < S->n; k++) { h ^= S->ch[k] + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 1099511628211ull; }
                    distinct.insert(h);
                }
            }
            itimerval off{}; setitimer(ITIMER_PROF, &off, nullptr);
            if (rc == 0) S->state = 0;
            std::ofstream f(g_dir + "/w" + std::to_string(w) + ".stat");
            f << evals << ' ' << disc << ' ' << nontriv << ' ' << labels.size() << '\n';
            for (auto& l : labels) f << l.second << ' ' << l.first << '\n';
            f << distinct.size() << '\n'; for (auto h : distinct) f << h << '\n';
            f.close();
            rmScratch();
            _exit(rc);
        }
    }
    std::vector<Failure> fails; std::vector<bool> done(W, false); std::vector<double> lastT(W, now()); std::vector<uint64_t> lastP(W, 0);
    int left = W;
    while (left) {
        for (int w = 0; w < W; w++) if (!done[w]) {
            int st; pid_t r = waitpid(pid[w], &st, WNOHANG); bool stalled = false;
            if (r == 0) {
                if (sh[w]->progress != lastP[w]) { lastP[w] = sh[w]->progress; lastT[w] = now(); }
                if (now() - lastT[w] > STALL_WALL && sh[w]->state == 1) { stalled = true; kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); }
                else continue;
            }
            done[w] = true; left--;
            if (!stalled && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            stop->stop = 1;
            Failure f; f.idx = sh[w]->case_idx; f.worker = w; f.prop = sh[w]->prop; f.ch.assign(sh[w]->ch, sh[w]->ch + sh[w]->n);
            f.msg = stalled ? "no progress for a long time (deadlock?)" : (sh[w]->state == 2 || sh[w]->state == 3) ? std::string(sh[w]->msg)
                  : "[" + props()[f.prop].name + "] crash: " + crash_summary(g_dir + "/w" + std::to_string(w) + ".err", st);
            fails.push_back(f);
        }
        usleep(5000);
    }
    std::sort(fails.begin(), fails.end(), [](const Failure& a, const Failure& b) { return a.idx < b.idx; });

    bool violation = false; std::string vmsg; int tries = 0; std::vector<std::string> unconfirmed;
    for (auto& f : fails) {
        if (violation) break;
        std::string m;
        if (confirm_and_shrink(f.prop, f.ch, replay_path, m, tries, shrink_s)) { violation = true; vmsg = m; break; }
        // does it need the preceding cases of the same worker (state leaking between objects)?
        ReplayResult h = history_in_child(seed, f.worker, W, f.idx);
        if (h.failed && history_in_child(seed, f.worker, W, f.idx).failed) {
            uint64_t start = f.worker;
            for (uint64_t k = 1; k <= 65536; k *= 4) {
                if (f.idx < f.worker + k * W) break;
                uint64_t cand = f.idx - k * W;
                if (history_in_child(seed, cand, W, f.idx).failed) { start = cand; break; }
            }
            std::ofstream g(replay_path); g << "prop " << props()[f.prop].name << "\nhistory " << seed << ' ' << start << ' ' << W << ' ' << f.idx << "\n# message (needs the preceding cases in the same process): " << h.msg << "\n";
            violation = true; vmsg = h.msg + " (after preceding cases in the same process)";
            break;
        }
        // A sanitizer report of a race is a verdict by itself, even if the schedule does not recur.
        if (f.msg.find("ThreadSanitizer") != std::string::npos) {
            write_replay(replay_path, props()[f.prop].name, f.ch, f.msg, "");
            violation = true; vmsg = f.msg; break;
        }
        unconfirmed.push_back(f.msg);
    }

    // collect statistics
    uint64_t evals = 0, disc = 0, nontriv = 0; std::map<std::string, long> labels; std::unordered_set<uint64_t> distinct;
    for (int w = 0; w < W; w++) {
        std::ifstream f(g_dir + "/w" + std::to_string(w) + ".stat"); uint64_t a, b, c2; size_t nl;
        if (!(f >> a >> b >> c2 >> nl)) continue;
        evals += a; disc += b; nontriv += c2;
        for (size_t i = 0; i < nl; i++) { long n; std::string l; f >> n; f.get(); std::getline(f, l); labels[l] += n; }
        size_t nd; f >> nd; for (size_t i = 0; i < nd; i++) { uint64_t h; f >> h; distinct.insert(h); }
    }
    // samples: the first non-trivial case of each sub-property, re-run in a child with descriptions on
    std::string sampf = g_dir + "/samples.txt"; unlink(sampf.c_str());
    if (!violation) {
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            g_scratch.clear(); quiet(g_dir + "/samples.err"); g_verbose = true; Shared* S = new_shared(); std::map<int, int> seen; int total = 0;
            std::ofstream f(sampf);
            for (uint64_t i = 0; i < std::min<uint64_t>(N, 400) && total < 8; i++) {
                int pr = case_prop(seed, i); if (seen[pr] >= 2) continue;
                Src s = Src::random(case_seed(seed, i), S); Ctx c(s);
                if (run_case(props()[pr], s, S, c) != PASS || !c.nontrivial) continue;
                seen[pr]++; total++;
                std::string d = c.desc.str(); if (d.size() > 700) d = d.substr(0, 700) + " ...";
                f << js("case " + std::to_string(i) + " [" + props()[pr].name + "] " + d) << "\n"; f.flush();
            }
            f.close(); rmScratch(); _exit(0);
        }
        int st; waitpid(p, &st, 0);
    }
    std::ofstream f(out);
    f << "{\n \"cases_requested\": " << N << ",\n \"evaluations\": " << evals << ",\n \"discarded\": " << disc << ",\n \"nontrivial\": " << nontriv << ",\n \"distinct_nontrivial\": " << distinct.size()
      << ",\n \"wall_s\": " << (now() - t0) << ",\n \"violation\": " << (violation ? "true" : "false") << ",\n \"message\": " << js(vmsg) << ",\n \"shrink_tries\": " << tries << ",\n \"unconfirmed\": [";
    for (size_t i = 0; i < unconfirmed.size(); i++) f << (i ? ", " : "") << js(unconfirmed[i]);
    f << "],\n \"labels\": {"; bool first = true; for (auto& l : labels) { f << (first ? "" : ", ") << js(l.first) << ": " << l.second; first = false; }
    f << "},\n \"samples\": ["; { std::ifstream g(sampf); std::string l; first = true; while (std::getline(g, l)) { f << (first ? "" : ",\n  ") << l; first = false; } }
    f << "]\n}\n";
    f.close();
    return violation ? 1 : unconfirmed.empty() ? 0 : 3;
}

} // namespace pbt

#ifdef PBT_LIBFUZZER
// Coverage-guided mode: the fuzzer's bytes are decoded into the same choices; a failure leaves a replay file.
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static pbt::Shared* fz = nullptr;
static void fz_dump() {
    const char* p = getenv("PBT_FUZZ_OUT"); if (!p || !fz || fz->state == 0) return;
    std::string path = std::string(p) + "/fuzz-" + std::to_string(getpid()) + ".replay";
    FILE* f = fopen(path.c_str(), "w"); if (!f) return;
    fprintf(f, "prop %s\nchoices %u", pbt::props()[fz->prop].name.c_str(), (unsigned)fz->n);
    for (unsigned i = 0; i < fz->n; i++) fprintf(f, " %llu", (unsigned long long)fz->ch[i]);
    fprintf(f, "\n# message: %s\n", fz->state == 2 ? fz->msg : "crash"); fclose(f);
    fz->state = 0;
}
static void fz_abort(int) { fz_dump(); _exit(77); }
extern "C" int LLVMFuzzerInitialize(int*, char***) {
    fz = (pbt::Shared*)mmap(nullptr, sizeof(pbt::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pbt::g_tier = 1; pbt::g_dir = getenv("PBT_FUZZ_OUT") ? getenv("PBT_FUZZ_OUT") : "/tmp";
    int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); close(fd);
    __sanitizer_set_death_callback(fz_dump);
    signal(SIGABRT, fz_abort);
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
    if (n < 2) return 0;
    uint64_t tot = 0; for (auto& p : pbt::props()) tot += p.weight;
    uint64_t r = d[0] * tot / 256; int pi = 0;
    for (size_t i = 0; i < pbt::props().size(); i++) { if (r < pbt::props()[i].weight) { pi = (int)i; break; } r -= pbt::props()[i].weight; }
    fz->prop = pi; fz->state = 1;
    pbt::Src s = pbt::Src::bytes(d + 1, n - 1, fz); pbt::Ctx c(s);
    if (pbt::run_case(pbt::props()[pi], s, fz, c) == pbt::FAILED) { fz_dump(); _exit(77); }
    fz->state = 0;
    return 0;
}
#else
int main(int argc, char** argv) { return pbt::runner_main(argc, argv); }
#endif
