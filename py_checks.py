"""C16 and C17: the Python binding.  Builds the extension module from a copy of
the repository's sources (plain and with ASan/UBSan), runs the generated cases in
worker processes, shrinks a failing case."""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import check as ck

CASES = {  # property -> flavour -> (quick, thorough)
    "C16": {"plain": (30000, 300000), "asan": (2500, 25000)},
    "C17": {"plain": (3200, 32000), "asan": (2400, 24000)},
}
RULES = {
    "C16": "generated configuration (defaults or keywords, values of eleven numeric kinds), then fits from twenty-six kinds of containers, steps, quantile and "
           "probability queries and new __init__ calls; every answer and the attributes, dictionary, excess list and raw bytes after every call are "
           "compared with the C library driven by ctypes; non-trivial: a fit succeeded and at least one excess was absorbed",
    "C17": "generated sequences of misuse (unconvertible arguments and items, raising conversions and iterators, wrong arity, read-only attributes, "
           "uninitialised objects, re-entrant conversions, copies, subclasses) mixed with normal use; every refusal must be an exception other than "
           "SystemError and leave the detector byte-identical, reference counts must be restored, and in the plain build the memory in use must not "
           "grow when the case is repeated (windows of 10 repetitions, until one shows no growth); non-trivial: a conversion failed, re-entered or met an uninitialised object",
}


def interpreter():
    for p in ("/opt/vp/venv/bin/python", "/opt/veriftools/pyvenv/bin/python", "/usr/bin/python3"):
        if os.path.exists(p):
            return p
    return sys.executable


def build(bdir, flavour):
    py = interpreter()
    inc = subprocess.run([py, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"], stdout=subprocess.PIPE, text=True).stdout.strip()
    rc = os.path.join(bdir, "copy")
    out = os.path.join(bdir, flavour)
    os.makedirs(out)
    cc, flags = ("gcc", ["-O2", "-g"]) if flavour == "plain" else (ck.CLANG, ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                                                                       "-fno-sanitize=function", "-shared-libasan"])
    srcs = sorted(os.path.join(rc, "src", f) for f in os.listdir(os.path.join(rc, "src")) if f.endswith(".c"))
    common = [cc, *flags, "-std=c99", "-fPIC", "-w", "-I" + os.path.join(rc, "include"), '-DVERSION="%s"' % ck.VERSION]
    jobs, objs = [], []
    for s in srcs:
        o = os.path.join(out, os.path.basename(s)[:-2] + ".o")
        jobs.append(common + ["-c", s, "-o", o])
        objs.append(o)
    mod = os.path.join(out, "module.o")
    jobs.append(common + ["-I" + os.path.join(rc, "dist"), "-I" + inc, "-DPy_LIMITED_API=0x03060000", "-c", os.path.join(rc, "python", "libspotmodule.c"),
                          "-o", mod])
    shim = os.path.join(out, "shim.o")
    jobs.append(common + ["-c", os.path.join(ck.HARNESS, "pyshim.c"), "-o", shim])
    ck.compile_all(jobs)
    os.makedirs(os.path.join(out, "ext"))
    ck.compile_all([[cc, *flags, "-shared", "-Wl,-Bsymbolic", *objs, mod, "-o", os.path.join(out, "ext", "libspot.abi3.so")],
                    [cc, *flags, "-shared", "-Wl,-Bsymbolic", *objs, shim, "-o", os.path.join(out, "ref.so")]])
    return out


def env_for(out, flavour, prop):
    e = dict(os.environ, VP_EXT=os.path.join(out, "ext"), VP_REF=os.path.join(out, "ref.so"), PYTHONMALLOC="malloc", PYTHONHASHSEED="0",
             PYTHONDONTWRITEBYTECODE="1", VP_LEAK="1" if prop == "C17" and flavour == "plain" else "0", OPENBLAS_NUM_THREADS="1")
    e["MALLOC_ARENA_MAX"] = "1"
    e["GLIBC_TUNABLES"] = "glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0"  # so that free chunks are seen as free
    if flavour == "asan":
        lib = subprocess.run([ck.CLANG, "-print-file-name=libclang_rt.asan-x86_64.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
        if not os.path.exists(lib):
            lib = "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.asan-x86_64.so"
        e["LD_PRELOAD"] = lib
        e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:abort_on_error=0"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
    return e


WORKER = os.path.join(ck.HARNESS, "py_worker.py")


def exec_case(prop, case, env, path):
    with open(path, "w") as f:
        json.dump(case, f)
    try:
        r = ck.sh([interpreter(), WORKER, "exec", prop, path], env=env, timeout=120)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 97, "HANG: no answer in 120 s"


def shrink(prop, case, env, path, budget=60):
    t0 = time.time()
    fails = lambda c: time.time() - t0 < budget and exec_case(prop, c, env, path)[0] != 0
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        n = len(case["ops"])
        step = max(1, n // 2)
        while step >= 1:
            i = 0
            while i < len(case["ops"]):
                c = dict(case, ops=case["ops"][:i] + case["ops"][i + step:])
                if fails(c):
                    case, changed = c, True
                else:
                    i += step
            step //= 2
        for i, op in enumerate(case["ops"]):  # shorter and simpler data
            if op[0] == "fit" and isinstance(op[-1], list) and len(op[-1]) > 5:
                for m in (5, len(op[-1]) // 2):
                    if m < len(op[-1]):
                        c = dict(case, ops=[o if j != i else op[:-1] + [op[-1][:m]] for j, o in enumerate(case["ops"])])
                        if fails(c):
                            case, changed = c, True
                            break
                op = case["ops"][i]
                simple = [float(round(x)) if x == x and abs(x) < 1e15 else x for x in op[-1]]
                if simple != op[-1] and repr(simple) != repr(op[-1]):
                    c = dict(case, ops=[o if j != i else op[:-1] + [simple] for j, o in enumerate(case["ops"])])
                    if fails(c):
                        case, changed = c, True
        for k in list(case["kw"]):
            c = dict(case, kw={a: b for a, b in case["kw"].items() if a != k})
            if fails(c):
                case, changed = c, True
    return case


def run_flavour(prop, flavour, out, cases, ev, bdir):
    env = env_for(out, flavour, prop)
    W = ck.WORKERS
    procs = []
    for w in range(W):
        o = os.path.join(bdir, "%s.w%d" % (flavour, w))
        log = open(o + ".log", "w")
        procs.append((subprocess.Popen([interpreter(), WORKER, "run", prop, str(ck.SEED), str(w), str(W), str(cases // W), o], stdout=log,
                                       stderr=subprocess.STDOUT, env=env), o, w))
    for p, o, w in procs:
        p.wait()
    for p, o, w in procs:
        if p.returncode == 0:
            d = json.load(open(o))
            ev.eval += d["done"]
            ev.distinct += d["distinct"]
            for k, v in d["labels"].items():
                ev.labels[k] = ev.labels.get(k, 0) + v
            ev.samples += d["samples"][:1]
    for p, o, w in procs:
        if p.returncode == 0:
            continue
        log = open(o + ".log", errors="replace").read()
        if not os.path.exists(o + ".case"):
            if "ImportError" in log or p.returncode not in (1,):  # the module itself cannot be used
                path = os.path.join(ck.replay_dir(), "%s-import.json" % prop)
                json.dump(dict(property=prop, flavour=flavour, case=None, message=log[-4000:]), open(path, "w"), indent=1)
                ck.report(prop, ev, path, "the extension module cannot be imported:\n" + log[-2000:])
            ck.die("worker failed before its first case:\n" + log[-3000:])
        case = json.load(open(o + ".case"))
        tmp = os.path.join(bdir, "shrink.json")
        got = [exec_case(prop, case, env, tmp) for _ in range(3)]
        if not any(rc for rc, _ in got):
            again = ck.sh([interpreter(), WORKER, "run", prop, str(ck.SEED), str(w), str(W), str(cases // W), o], env=env)
            if again.returncode == 0:
                ev.extra["irreproducible_failures"] = ev.extra.get("irreproducible_failures", 0) + 1
                print("NOTE: a failure of worker %d did not reproduce; not reported" % w)
                continue
            msg = again.stdout
            spec = dict(run=[str(ck.SEED), str(w), str(W), str(cases // W)])
        else:
            if all(rc for rc, _ in got):
                case = shrink(prop, case, env, tmp)
            rc, msg = exec_case(prop, case, env, tmp)
            if rc == 0:
                msg = next(m for r_, m in got if r_)
            msg = "exit %s: %s" % (rc, msg)
            spec = dict(case=case)
        path = os.path.join(ck.replay_dir(), "%s-%s-seed%d.json" % (prop, flavour, ck.SEED))
        json.dump(dict(property=prop, flavour=flavour, message=msg[-6000:], how="python3 %s %s --replay %s" % (os.path.join(ck.VERIF, "check.py"), prop, path),
                       **spec), open(path, "w"), indent=1)
        ck.report(prop, ev, path, "[%s] %s" % (flavour, msg[-3000:]))


def main(prop, args):
    bdir = ck.build_dir(prop)
    ev = ck.Evidence(prop)
    ev.rule = RULES[prop]
    ck.repo_copy(os.path.join(bdir, "copy"))
    with ThreadPoolExecutor(2) as ex:
        outs = dict(zip(CASES[prop], ex.map(lambda f: build(bdir, f), CASES[prop])))
    if "--replay" in args:
        path = args[args.index("--replay") + 1]
        d = json.load(open(path))
        env = env_for(outs[d["flavour"]], d["flavour"], prop)
        if d.get("case") is not None:
            rc, msg = exec_case(prop, d["case"], env, os.path.join(bdir, "case.json"))
        elif "run" in d:
            r = ck.sh([interpreter(), WORKER, "run", prop, *d["run"], os.path.join(bdir, "o")], env=env)
            rc, msg = r.returncode, r.stdout
        else:
            r = ck.sh([interpreter(), "-c", "import sys,os;sys.path.insert(0,os.environ['VP_EXT']);import libspot"], env=env)
            rc, msg = r.returncode, r.stdout
        print(msg)
        shutil.rmtree(bdir, ignore_errors=True)
        if rc:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("%s: the recorded case passes" % prop)
        return 0
    ev.extra["cases_per_build"] = {}
    for fl, (quick, thorough) in CASES[prop].items():
        b4 = ev.eval
        run_flavour(prop, fl, outs[fl], thorough if ck.TIER == "thorough" else quick, ev, bdir)
        ev.extra["cases_per_build"][fl] = ev.eval - b4
    ck.finish(prop, ev)
    shutil.rmtree(bdir, ignore_errors=True)
    return 0
