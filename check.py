#!/usr/bin/env python3
"""Driver of the checks: builds the library from /repo's working tree together
with one property harness, runs it in parallel workers on generated cases,
confirms and shrinks a failure, writes the evidence file.

  check.py C03                    run (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py C03 --replay FILE      re-run a recorded failing case
"""
import array, glob, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
TIER = TIER if TIER in ("quick", "thorough") else "quick"
WORKERS = 8
CLANG, CLANGXX = "/usr/bin/clang", "/usr/bin/clang++"
VERSION = "9.8.7-vp"

PROD = dict(cc="gcc", cxx="g++", cflags=["-O3", "-std=c99"], cxxflags=["-O1", "-std=c++17"])
SAN_F = ["-g", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
SAN = dict(cc=CLANG, cxx=CLANGXX, cflags=["-O1", "-std=c99"] + SAN_F, cxxflags=["-O1", "-std=c++17"] + SAN_F)
TSAN_F = ["-g", "-fsanitize=thread"]
TSAN = dict(cc=CLANG, cxx=CLANGXX, cflags=["-O1", "-std=c99"] + TSAN_F, cxxflags=["-O1", "-std=c++17"] + TSAN_F)
FUZZ_F = ["-g", "-fsanitize=fuzzer,address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"]
FUZZ = dict(cc=CLANG, cxx=CLANGXX, cflags=["-O1", "-std=c99"] + FUZZ_F, cxxflags=["-O1", "-std=c++17", "-DVP_LIBFUZZER"] + FUZZ_F)
# every basic block of the library reports to the harness (work counting)
WORK = dict(cc="gcc", cxx="g++", cflags=["-O1", "-std=c99", "-fsanitize-coverage=trace-pc"], cxxflags=["-O1", "-std=c++17"])
FLAVOURS = dict(prod=PROD, san=SAN, tsan=TSAN, fuzz=FUZZ, work=WORK)

# property -> [(flavour, quick cases, thorough cases)], libFuzzer runs (thorough)
CPP = json.load(open(os.path.join(VERIF, "harness", "cases.json")))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def build_dir(pid):
    d = os.path.join(VERIF, ".build", pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def compile_all(jobs):
    """jobs: list of argv; run in parallel, stop on error"""
    with ThreadPoolExecutor(WORKERS) as ex:
        for argv, r in zip(jobs, ex.map(sh, jobs)):
            if r.returncode:
                die("build failed: %s\n%s" % (" ".join(argv), r.stdout[-4000:]))


def lib_jobs(fl, out, extra=()):
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.c")))
    if not srcs:
        die("no sources in " + REPO)
    jobs, objs = [], []
    for s in srcs:
        o = os.path.join(out, "lib_" + os.path.basename(s)[:-2] + ".o")
        jobs.append([fl["cc"], *fl["cflags"], *extra, "-w", "-I" + os.path.join(REPO, "include"),
                     '-DVERSION="%s"' % VERSION, "-c", s, "-o", o])
        objs.append(o)
    return jobs, objs


def build_cpp(pid, flavour, bdir):
    fl = FLAVOURS[flavour]
    out = os.path.join(bdir, flavour)
    os.makedirs(out)
    jobs, objs = lib_jobs(fl, out)
    for name in ("engine.cc", pid + ".cc"):
        o = os.path.join(out, name + ".o")
        jobs.append([fl["cxx"], *fl["cxxflags"], "-I" + os.path.join(REPO, "include"), "-I" + HARNESS, "-w",
                     '-DVP_VERSION="%s"' % VERSION, "-c", os.path.join(HARNESS, name), "-o", o])
        objs.append(o)
    compile_all(jobs)
    exe = os.path.join(out, "run")
    compile_all([[fl["cxx"], *fl["cxxflags"], *objs, "-o", exe, "-ldl", "-lpthread", "-lm"]])
    return exe


def so_build(bdir, name, cc, flags):
    """a shared library of the sources with its own flags"""
    out = os.path.join(bdir, "so_" + name)
    os.makedirs(out)
    jobs, objs = lib_jobs(dict(cc=cc, cflags=flags), out, ("-fPIC",))
    compile_all(jobs)
    so = os.path.join(out, name + ".so")
    compile_all([[cc, "-shared", "-Wl,-Bsymbolic", "-o", so, *objs]])
    return so


def run_env(extra=None):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
    e["TSAN_OPTIONS"] = "exitcode=98:halt_on_error=1"
    e.update(extra or {})
    return e


def known_findings(pid):
    """open findings of the property: {key: text}"""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    for line in open(p):
        m = re.match(r"open: property=(\S+) key=(\S+) (.*)", line.strip())
        if m and m.group(1) == pid:
            res[m.group(2)] = m.group(3)
    return res


class Evidence:
    def __init__(self, pid, level="exploration"):
        self.pid, self.level, self.t0 = pid, level, time.time()
        self.eval = self.distinct = 0
        self.rule, self.samples, self.labels, self.extra = "", [], {}, {}
        self.assumptions = []

    def write(self, violations):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(evaluations=self.eval, distinct_nontrivial=self.distinct, rule=self.rule,
                   samples=self.samples[:10], classes=dict(sorted(self.labels.items())), **self.extra)
        d = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                 assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=violations)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(d, f, indent=1)
            f.write("\n")


def report(pid, ev, replay, detail):
    ev.write(1)
    print(detail)
    print("VIOLATION property=%s replay=%s" % (pid, replay))
    sys.exit(1)


def replay_dir():
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    return d


def replay_once(exe, tape, env):
    try:
        r = sh([exe, "--replay", tape], env=env, timeout=600)
    except subprocess.TimeoutExpired:
        return 97, "HANG: no answer"
    return r.returncode, r.stdout


def handle_failure(pid, flavour, exe, tape, ev, env, origin):
    """tape: file with the failing case. Confirm, shrink, report. Returns if it does not reproduce."""
    got = [replay_once(exe, tape, env) for _ in range(3)]
    nfail = sum(1 for rc, _ in got if rc != 0)
    if nfail == 0:
        return False
    out = tape + ".min"
    msg = next(o for rc, o in got if rc != 0)
    if nfail == 3 and not any(rc == 97 for rc, _ in got):
        sh([exe, "--shrink", tape, "--out", out, "--budget", "40", "--cpu", "20"], env=env, timeout=300)
        if os.path.exists(out):
            again = [replay_once(exe, out, env) for _ in range(3)]
            if all(rc != 0 for rc, _ in again):
                tape, msg = out, again[0][1]
    vals = [int(x) for x in open(tape).read().split()]
    path = os.path.join(replay_dir(), "%s-%s-seed%d.json" % (pid, flavour, SEED))
    with open(path, "w") as f:
        json.dump(dict(property=pid, flavour=flavour, tape=vals, seed=SEED, origin=origin,
                       message=msg[-6000:], replays_failed="%d/3" % nfail,
                       how="python3 %s %s --replay %s" % (os.path.join(VERIF, "check.py"), pid, path)), f, indent=1)
    report(pid, ev, path, "[%s] %s" % (flavour, msg[-3000:]))


def run_flavour(pid, flavour, exe, cases, ev, bdir, env):
    per = max(1, cases // WORKERS)
    procs = []
    for w in range(WORKERS):
        out = os.path.join(bdir, "%s.w%d.json" % (flavour, w))
        log = open(out + ".log", "w")
        p = subprocess.Popen([exe, "--seed", str(SEED), "--worker", str(w), "--workers", str(WORKERS),
                              "--cases", str(per), "--out", out], stdout=log, stderr=subprocess.STDOUT, env=env)
        procs.append((p, out, w))
    for p, out, w in procs:
        p.wait()
    bad = []
    hashes = set()
    for p, out, w in procs:
        if p.returncode in (0, 1) and os.path.exists(out):
            d = json.load(open(out))
            ev.eval += d["done"]
            ev.rule = d["rule"]
            for k, v in d["labels"].items():
                ev.labels[k] = ev.labels.get(k, 0) + v
            ev.samples += [s for s in d["samples"][:1]]
            a = array.array("Q")
            with open(out + ".hashes", "rb") as f:
                a.frombytes(f.read())
            hashes.update(a)
        if p.returncode != 0:
            bad.append((p.returncode, out, w))
    ev.distinct += len(hashes)
    for rc, out, w in bad:
        if rc == 96:
            die("harness error, see %s.log" % out)
        tape = out + ".fail"
        if not os.path.exists(tape):  # died: take the tape from the shared mapping
            if not os.path.exists(out + ".tape"):
                die("worker died before its first case:\n" + open(out + ".log").read()[-3000:])
            a = array.array("Q")
            with open(out + ".tape", "rb") as f:
                a.frombytes(f.read())
            n = a[1]
            with open(tape, "w") as f:
                f.write("".join("%d\n" % x for x in a[2:2 + n]))
        handle_failure(pid, flavour, exe, tape, ev, env, dict(seed=SEED, worker=w, rc=rc))
        # the case alone passes: the failure needs the cases before it (state kept by
        # the library between cases); the whole worker run is then the reproduction
        r = [sh([exe, "--seed", str(SEED), "--worker", str(w), "--workers", str(WORKERS), "--cases", str(per),
                 "--out", out + ".again"], env=env) for _ in range(2)]
        if all(x.returncode not in (0, 96) for x in r):
            path = os.path.join(replay_dir(), "%s-%s-seed%d.json" % (pid, flavour, SEED))
            msg = open(out + ".log").read()[-3000:]
            try:
                msg = json.load(open(out))["msg"] + "\n" + msg
            except Exception:
                pass
            json.dump(dict(property=pid, flavour=flavour, seed=SEED, worker=w, workers=WORKERS, cases=per, message=msg,
                           how="python3 %s %s --replay %s" % (os.path.join(VERIF, "check.py"), pid, path)),
                      open(path, "w"), indent=1)
            report(pid, ev, path, "[%s] fails only after the cases before it: %s" % (flavour, msg))
        ev.extra["irreproducible_failures"] = ev.extra.get("irreproducible_failures", 0) + 1
        print("NOTE: a failure of worker %d (rc %s) did not reproduce; not reported" % (w, rc))


def run_fuzz(pid, runs, ev, bdir, env):
    """coverage-guided search over the same tapes (thorough tier)"""
    exe = build_cpp(pid, "fuzz", bdir)
    procs = []
    for w in range(WORKERS):
        corpus = os.path.join(bdir, "corpus%d" % w)
        os.makedirs(corpus)
        fo = os.path.join(bdir, "fuzz%d.tape" % w)
        e = dict(env, VP_FUZZ_OUT=fo)
        log = open(os.path.join(bdir, "fuzz%d.log" % w), "w")
        p = subprocess.Popen([exe, corpus, "-runs=%d" % (runs // WORKERS), "-seed=%d" % (SEED * 100 + w + 1),
                              "-max_len=6000", "-timeout=120", "-rss_limit_mb=3000", "-max_total_time=240",
                              "-artifact_prefix=" + os.path.join(bdir, "crash%d-" % w)],
                             stdout=log, stderr=subprocess.STDOUT, env=e)
        procs.append((p, fo, w))
    tot = 0
    cov = 0
    for p, fo, w in procs:
        p.wait()
        log = open(os.path.join(bdir, "fuzz%d.log" % w)).read()
        m = re.findall(r"^#(\d+)\s.*?cov: (\d+)", log, re.M)
        if m:
            tot += int(m[-1][0])
            cov = max(cov, int(m[-1][1]))
        if p.returncode != 0:
            # decode the crashing input into a tape for the replayable build
            crash = glob.glob(os.path.join(bdir, "crash%d-*" % w))
            if not crash or "timeout-" in crash[0]:
                continue
            data = open(crash[0], "rb").read()
            vals, i = [], 0
            while i < len(data):
                k = data[i] & 7
                i += 1
                x = 0
                for j in range(k + 1):
                    if i >= len(data):
                        break
                    x |= data[i] << (8 * j)
                    i += 1
                vals.append(x)
            tape = os.path.join(bdir, "fuzz%d.txt" % w)
            open(tape, "w").write("".join("%d\n" % v for v in vals))
            for fl in ("prod", "san"):
                ex = os.path.join(bdir, fl, "run")
                if not os.path.exists(ex):
                    ex = build_cpp(pid, fl, bdir)
                handle_failure(pid, fl, ex, tape, ev, env, dict(fuzz_worker=w))
            ev.extra["irreproducible_failures"] = ev.extra.get("irreproducible_failures", 0) + 1
    ev.extra["libfuzzer"] = dict(executions=tot, edges=cov)
    ev.eval += tot


def repo_copy(dst):
    """what the bindings and the header generation need, outside /repo"""
    os.makedirs(dst)
    for d in ("src", "include", "python", "wasm"):
        if os.path.isdir(os.path.join(REPO, d)):
            shutil.copytree(os.path.join(REPO, d), os.path.join(dst, d),
                            ignore=shutil.ignore_patterns("build", "dist", "node_modules", "*.so", "*.egg-info", "__pycache__"))
    for f in ("Makefile", ".clang-format", "doxyfile"):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copy(os.path.join(REPO, f), dst)
    env = dict(os.environ)
    for k in ("CFLAGS", "LDFLAGS", "MAKEFLAGS"):
        env.pop(k, None)
    r = sh(["make", "-C", dst, "CC=gcc", "dist/spot.h"], env=env)
    if r.returncode or not os.path.exists(os.path.join(dst, "dist", "spot.h")):
        die("the header dist/spot.h cannot be generated\n" + r.stdout[-2000:])
    return dst


def c22_builds(bdir):
    """the builds C22 compares; returns (paths, notes)"""
    base = ["-std=c99", "-fno-stack-protector"]
    kinds = [("gcc-O3", "gcc", ["-O3"]), ("gcc-O0", "gcc", ["-O0"]), ("gcc-O2", "gcc", ["-O2"]),
             ("gcc-Os-freestanding", "gcc", ["-Os", "-ffreestanding"]),
             ("gcc-O1-pattern", "gcc", ["-O1", "-ftrivial-auto-var-init=pattern"]),
             ("clang-O0", CLANG, ["-O0"]), ("clang-O2", CLANG, ["-O2", "-ftrivial-auto-var-init=pattern"]),
             ("clang-O3-freestanding", CLANG, ["-O3", "-ffreestanding"]), ("clang-Os", CLANG, ["-Os", "-DNDEBUG"]),
             ("gcc-O2-gnu17", "gcc", ["-O2", "-DNDEBUG", "-funsigned-char", "-ftrivial-auto-var-init=zero", "-std=gnu17", "-ffp-contract=off"])]
    sos, notes = [], {}
    for name, cc, fl in kinds:
        sos.append(so_build(bdir, name, cc, base + fl))
    # self-contained: links with nothing but the memory routines any compiler may call
    objs = glob.glob(os.path.join(bdir, "so_gcc-O3", "*.o"))
    stub = os.path.join(bdir, "mem.c")
    with open(stub, "w") as f:
        f.write("void *memcpy(void *d, const void *s, __SIZE_TYPE__ n) { (void)s; (void)n; return d; }\n"
                "void *memmove(void *d, const void *s, __SIZE_TYPE__ n) { (void)s; (void)n; return d; }\n"
                "void *memset(void *d, int c, __SIZE_TYPE__ n) { (void)c; (void)n; return d; }\n"
                "int memcmp(const void *a, const void *b, __SIZE_TYPE__ n) { (void)a; (void)b; (void)n; return 0; }\n")
    undefined = None
    for name in ("gcc-O3", "gcc-O0", "clang-O0", "clang-O3-freestanding"):
        objs = sorted(glob.glob(os.path.join(bdir, "so_" + name, "*.o")))
        r = sh(["gcc", "-shared", "-nostdlib", "-fPIC", "-fno-builtin", "-fno-stack-protector", "-O1", "-Wl,-z,defs", "-o",
                os.path.join(bdir, "alone.so"), stub, *objs])
        if r.returncode:
            undefined = (name, r.stdout)
            break
    # single-file C++ version, if the Makefile still makes one that compiles
    rc = repo_copy(os.path.join(bdir, "copy"))
    r = sh(["make", "-C", rc, "CC=gcc", "arduino/spot/spot.cpp", "arduino/spot/spot.h"])
    cpp = os.path.join(rc, "arduino", "spot", "spot.cpp")
    if r.returncode == 0 and os.path.exists(cpp):
        w = os.path.join(rc, "arduino", "w.cpp")
        with open(w, "w") as f:
            f.write('extern "C" {\n#include "spot/spot.cpp"\n}\n')
        so = os.path.join(bdir, "single-file-c++.so")
        r = sh(["g++", "-O2", "-w", "-fPIC", "-shared", "-Wl,-Bsymbolic", '-DVERSION="%s"' % VERSION, "-I" + os.path.join(rc, "arduino", "spot"), w, "-o", so])
        if r.returncode == 0:
            sos.append(so)
    notes["builds"] = [os.path.basename(x) for x in sos]
    # the same client through the internal headers and through the generated one
    outs = []
    for name, hdr in (("include", "spot.h"), ("dist", os.path.join(rc, "dist", "spot.h"))):
        exe = os.path.join(bdir, "probe-" + name)
        objs = sorted(glob.glob(os.path.join(bdir, "so_gcc-O2", "*.o")))
        r = sh(["gcc", "-O1", "-w", '-DVP_HEADER="%s"' % hdr, "-I" + os.path.join(REPO, "include"),
                os.path.join(HARNESS, "c22_probe.c"), *objs, "-o", exe])
        if r.returncode:
            outs.append("does not compile: " + r.stdout[-1500:])
        else:
            r = sh([exe])
            outs.append(r.stdout + "\nexit %d" % r.returncode)
    return sos, notes, undefined, outs


def extra_env(pid, bdir):
    """shared libraries some harnesses compare"""
    if pid == "C22":
        sos, notes, undefined, outs = c22_builds(bdir)
        return dict(VP_SO_LIST=":".join(sos), _notes=json.dumps(notes), _undefined=json.dumps(undefined), _outs=json.dumps(outs))
    if pid == "C12":
        so = so_build(bdir, "a", "gcc", ["-O3", "-std=c99"])
        b = os.path.join(os.path.dirname(so), "b.so")
        c = os.path.join(os.path.dirname(so), "c.so")
        shutil.copy(so, b)
        shutil.copy(so, c)
        return dict(VP_SO_A=so, VP_SO_B=b, VP_SO_C=c)
    return {}


def main_cpp(pid):
    spec = CPP[pid]
    bdir = build_dir(pid)
    ev = Evidence(pid)
    env = run_env(extra_env(pid, bdir))
    if pid == "C22":
        ev.extra.update(json.loads(env.pop("_notes")))
        und, outs = json.loads(env.pop("_undefined")), json.loads(env.pop("_outs"))
        msg = None
        if und:
            msg = "the library needs symbols it does not define (%s build):\n%s" % tuple(und)
        elif outs[0] != outs[1]:
            a, b = outs[0].splitlines(), outs[1].splitlines()
            msg = "a client built with dist/spot.h differs from one built with include/spot.h:\n" + "\n".join(
                "  %s | %s" % (x, y) for x, y in zip(a, b) if x != y)[:2000] or outs[1][:2000]
        if msg:
            path = os.path.join(replay_dir(), "C22-build.json")
            json.dump(dict(property=pid, message=msg, how="python3 %s C22" % os.path.join(VERIF, "check.py")), open(path, "w"), indent=1)
            report(pid, ev, path, msg)
    ev.assumptions = spec.get("assumptions", [])
    with ThreadPoolExecutor(3) as ex:
        fls = list(spec["flavours"])
        exes = dict(zip(fls, ex.map(lambda f: build_cpp(pid, f, bdir), fls)))
    ev.extra["cases_per_build"] = {}
    for fl, (quick, thorough) in spec["flavours"].items():
        b4 = ev.eval
        run_flavour(pid, fl, exes[fl], thorough if TIER == "thorough" else quick, ev, bdir, env)
        ev.extra["cases_per_build"][fl] = ev.eval - b4
    if TIER == "thorough" and spec.get("fuzz"):
        run_fuzz(pid, spec["fuzz"], ev, bdir, env)
    finish(pid, ev)
    shutil.rmtree(bdir, ignore_errors=True)


def finish(pid, ev):
    for key, text in known_findings(pid).items():
        if ev.labels.get("KNOWN " + key):
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
    ev.write(0)
    print("%s: held on %d cases (%d distinct non-trivial), %.1f s, seed %d, %s" %
          (pid, ev.eval, ev.distinct, time.time() - ev.t0, SEED, TIER))


def replay(pid, path):
    d = json.load(open(path))
    if "flavour" not in d:
        main_cpp(pid)
        return 0
    bdir = build_dir(pid + "-replay")
    env = run_env(extra_env(pid, bdir))
    exe = build_cpp(pid, d["flavour"], bdir)
    if "tape" in d:
        t = os.path.join(bdir, "tape")
        open(t, "w").write("".join("%d\n" % x for x in d["tape"]))
        rc, out = replay_once(exe, t, env)
    else:
        r = sh([exe, "--seed", str(d["seed"]), "--worker", str(d["worker"]), "--workers", str(d["workers"]),
                "--cases", str(d["cases"]), "--out", os.path.join(bdir, "out")], env=env)
        rc, out = r.returncode, r.stdout
    print(out)
    shutil.rmtree(bdir, ignore_errors=True)
    if rc:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("%s: the recorded case passes" % pid)
    return 0


def main():
    if len(sys.argv) < 2:
        die("usage: check.py ID [--replay FILE]")
    pid = sys.argv[1]
    if pid in CPP:
        if "--replay" in sys.argv:
            return replay(pid, sys.argv[sys.argv.index("--replay") + 1])
        main_cpp(pid)
        return 0
    import importlib
    sys.path.insert(0, VERIF)
    m = importlib.import_module({"C16": "py_checks", "C17": "py_checks", "C18": "js_check"}[pid])
    return m.main(pid, sys.argv[2:]) or 0


if __name__ == "__main__":
    sys.exit(main())
