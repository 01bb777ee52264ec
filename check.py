#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: build the property's harness from /repo's working tree,
search generated cases for a violation, write /verif/evidence/<property>.json.
Exit 0: held on everything explored; 1 + VIOLATION line: broken; 2: the check itself could not run."""
import sys, os, json, subprocess, time, glob, shutil, re
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from props.config import CONFIG, FUZZ_SECONDS

COMMON = ["-std=c++17", "-include", "cstdint", "-w", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
          "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "engine"), "-I" + REPO]
VARIANTS = {
    "asan": ("g++", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr", "-ftrivial-auto-var-init=pattern"]),
    "fast": ("g++", ["-O1", "-ftrivial-auto-var-init=pattern"]),
    "tsan": ("g++", ["-O1", "-fsanitize=thread"]),
    "fuzz": ("clang++", ["-O1", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr", "-ftrivial-auto-var-init=pattern", "-DPBT_LIBFUZZER"]),
}
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:max_allocation_size_mb=6000:hard_rss_limit_mb=6000:detect_stack_use_after_return=1:handle_abort=0:max_malloc_fill_size=1048576"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
ENV["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0"

def lib_sources(extra):
    s = sorted(glob.glob(os.path.join(REPO, "src/Layers/*.cpp")))
    s += [f for f in sorted(glob.glob(os.path.join(REPO, "src/*.cpp"))) if os.path.basename(f) not in ("main.cpp", "rvalue_detection.cpp")]
    return s

def build(prop, cfg, variant, bdir):
    cxx, flags = VARIANTS[variant]
    os.makedirs(bdir, exist_ok=True)
    srcs = [(os.path.join(VERIF, "engine/pbt.cpp"), [])]
    parts = cfg.get("parts", 0)
    srcs += [(os.path.join(VERIF, "props", cfg["src"]), ["-DPART=%d" % k]) for k in range(parts)] if parts else [(os.path.join(VERIF, "props", cfg["src"]), [])]
    if cfg.get("lib", True): srcs += [(f, []) for f in lib_sources(cfg)]
    flags = flags + cfg.get("flags", [])
    if cfg.get("has_gen") and re.search(r"class\s+MNistGenerator\b", open(os.path.join(REPO, "src/main.cpp"), errors="replace").read()): flags = flags + ["-DHAVE_GEN"]
    objs, procs = [], []
    for i, (s, fl) in enumerate(srcs):
        o = os.path.join(bdir, "%d_%s.o" % (i, os.path.basename(s)))
        objs.append(o)
        procs.append((s, subprocess.Popen([cxx] + COMMON + flags + fl + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for s, p in procs:
        out, _ = p.communicate()
        if p.returncode: raise RuntimeError("compiling %s (%s) failed:\n%s" % (s, variant, out[-4000:]))
    exe = os.path.join(bdir, "check")
    r = subprocess.run([cxx] + flags + objs + ["-lpthread", "-o", exe], capture_output=True, text=True)
    if r.returncode: raise RuntimeError("linking (%s) failed:\n%s" % (variant, r.stderr[-4000:]))
    return exe

def fuzz(prop, cfg, work, exe_fuzz, exe_confirm, seconds, seed, replay):
    """libFuzzer campaign over the same choice sequences; any failure is confirmed (and shrunk) by the asan runner."""
    d = os.path.join(work, "fuzz"); os.makedirs(d, exist_ok=True)
    procs = []
    for j in range(8):
        cd = os.path.join(d, "corpus%d" % j); od = os.path.join(d, "out%d" % j)
        os.makedirs(cd, exist_ok=True); os.makedirs(od, exist_ok=True)
        e = dict(ENV); e["PBT_FUZZ_OUT"] = od
        procs.append(subprocess.Popen([exe_fuzz, cd, "-seed=%d" % (seed * 8 + j + 1), "-max_total_time=%d" % seconds, "-max_len=%d" % (512 if j % 2 else 4096),
                                       "-len_control=20", "-timeout=120", "-rss_limit_mb=6000", "-print_final_stats=1", "-artifact_prefix=" + od + "/"],
                                      env=e, stdout=subprocess.DEVNULL, stderr=open(os.path.join(od, "log"), "w")))
    execs, cov = 0, 0
    for j, p in enumerate(procs):
        p.wait()
        log = open(os.path.join(d, "out%d" % j, "log"), errors="replace").read()
        m = re.findall(r"number_of_executed_units:\s*(\d+)", log) or re.findall(r"#(\d+)\s", log)
        if m: execs += int(m[-1])
        m = re.findall(r"cov: (\d+)", log)
        if m: cov = max(cov, int(m[-1]))
    fails = sorted(glob.glob(os.path.join(d, "out*", "*.replay")))
    res = {"fuzz_executions": execs, "fuzz_edge_coverage": cov, "fuzz_seconds": seconds, "fuzz_raw_failures": len(fails)}
    for f in fails[:8]:
        r = subprocess.run([exe_confirm, "confirm", "--file", f, "--dir", work, "--replay", replay, "--tier", "1"], env=ENV, capture_output=True, text=True)
        if r.returncode == 1: return res, r.stdout.strip()
    return res, None

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = CONFIG[prop]
    t0 = time.time()
    work = os.path.join(VERIF, "build", "%s-%s" % (prop, tier))
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    if "--replay" in sys.argv:
        f = os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])
        v = list(cfg["cases"][tier])[0]
        exe = build(prop, cfg, v, os.path.join(work, v))
        os.makedirs(os.path.join(work, "run"), exist_ok=True)
        return subprocess.run([exe, "replay", "--file", f, "--dir", os.path.join(work, "run")], env=ENV).returncode
    replays = os.path.join(VERIF, "replays"); os.makedirs(replays, exist_ok=True)
    cases = cfg["cases"][tier]
    variants = list(cases)
    want_fuzz = tier == "thorough" and cfg.get("fuzz", True)
    with ThreadPoolExecutor(8) as ex:
        futs = {v: ex.submit(build, prop, cfg, v, os.path.join(work, v)) for v in variants + (["fuzz"] if want_fuzz else [])}
        exes = {v: f.result() for v, f in futs.items()}
    t_build = time.time() - t0
    violation, total, distinct, nontriv, samples, labels, detail, unconfirmed = None, 0, 0, 0, [], {}, {}, []
    for v in variants:
        n = cases[v]
        rounds = [seed] if tier == "quick" else [seed + 1000 * k for k in range(cfg.get("rounds", 3))]
        for sd in rounds:
            wd = os.path.join(work, "run-%s-%d" % (v, sd)); os.makedirs(wd, exist_ok=True)
            replay = os.path.join(replays, "%s-%s-%d.replay" % (prop, v, sd))
            out = os.path.join(wd, "result.json")
            vseed = sd * 10 + sorted(VARIANTS).index(v)
            r = subprocess.run([exes[v], "run", "--seed", str(vseed), "--cases", str(n), "--workers", str(cfg.get("workers", 8)), "--dir", wd, "--out", out, "--replay", replay,
                                "--tier", "0" if tier == "quick" else "1", "--cpu", str(cfg.get("cpu", 60)), "--shrink", "60" if tier == "quick" else "180"], env=ENV, capture_output=True, text=True)
            if r.returncode not in (0, 1, 3): raise RuntimeError("runner ended with %s: %s %s" % (r.returncode, r.stdout[-2000:], r.stderr[-2000:]))
            res = json.load(open(out))
            total += res["evaluations"]; distinct += res["distinct_nontrivial"]; nontriv += res["nontrivial"]; unconfirmed += res["unconfirmed"]
            detail["%s seed %d" % (v, sd)] = {k: res[k] for k in ("cases_requested", "evaluations", "discarded", "nontrivial", "distinct_nontrivial", "wall_s")}
            for k, c in res["labels"].items(): labels[k] = labels.get(k, 0) + c
            if len(samples) < 8: samples += res["samples"][:8 - len(samples)]
            if res["violation"]: violation = (replay, res["message"])
            shutil.rmtree(wd, ignore_errors=True) if not res["violation"] else None
            if violation: break
        if violation: break
    fz = None
    if want_fuzz and not violation:
        replay = os.path.join(replays, "%s-fuzz-%d.replay" % (prop, seed))
        fz, msg = fuzz(prop, cfg, work, exes["fuzz"], exes.get("asan") or exes[variants[0]], cfg.get("fuzz_s", FUZZ_SECONDS), seed, replay)
        if msg: violation = (replay, msg)
    cov = {"evaluations": total, "distinct_nontrivial": distinct, "rule": cfg["rule"], "samples": samples or [violation[1] if violation else "none"],
           "nontrivial": nontriv, "runs": detail, "class_counts": labels, "build_s": round(t_build, 1)}
    if fz: cov["coverage_guided"] = fz
    if unconfirmed: cov["unconfirmed_not_reproducible"] = unconfirmed[:5]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + ["harness built with g++ -std=c++17, assertions enabled, sanitizers in the asan/tsan variants; a case is judged only on observable behaviour"],
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if violation:
        print("message: " + violation[1][:3000])
        print("VIOLATION property=%s replay=%s" % (prop, violation[0]))
        return 1
    if not "--keep" in sys.argv: shutil.rmtree(work, ignore_errors=True)
    print("%s %s: held on %d cases (%d distinct non-trivial), %.1f s (build %.1f s)" % (prop, tier, total, distinct, time.time() - t0, t_build))
    return 0

if __name__ == "__main__":
    try: sys.exit(main())
    except Exception as e:
        print("check error: %s" % e, file=sys.stderr); sys.exit(2)
