"""C18: the JavaScript binding.  index.ts is bundled as it is; the WebAssembly core is
built with clang for wasm32 from the sources and wasm/main.c over a small libc whose
allocator keeps accounts (emscripten is not available here)."""
import json, os, shutil, subprocess, sys, time
import check as ck

CASES = (10000, 100000)
RULE = ("generated scripts over several JavaScript detectors (creations with defaults, bad and huge configurations, fits from plain arrays and views into larger "
        "buffers, steps, queries, thresholds, drops), every answer or error message compared with the native C library, heap accounts checked after each "
        "call and after garbage collection; non-trivial: a fit succeeded and an excess was absorbed")
WORKER = os.path.join(ck.HARNESS, "js_worker.py")


def node():
    return shutil.which("node") or "/usr/bin/node"


def build(bdir):
    rc = ck.repo_copy(os.path.join(bdir, "copy"))
    js = os.path.join(bdir, "js")
    os.makedirs(js)
    h = os.path.join(ck.HARNESS, "js")
    srcs = sorted(os.path.join(rc, "src", f) for f in os.listdir(os.path.join(rc, "src")) if f.endswith(".c"))
    fl = ["--target=wasm32", "-O2", "-std=c99", "-ffreestanding", "-w", "-I" + os.path.join(rc, "include"), '-DVERSION="%s"' % ck.VERSION]
    jobs, objs = [], []
    for s in srcs:
        o = os.path.join(js, os.path.basename(s)[:-2] + ".o")
        jobs.append([ck.CLANG, *fl, "-c", s, "-o", o])
        objs.append(o)
    for s, extra in ((os.path.join(rc, "wasm", "main.c"), ["-Dmain=vp_main"]), (os.path.join(h, "libc.c"), ["-fno-builtin"])):
        o = os.path.join(js, "x_" + os.path.basename(s)[:-2] + ".o")
        jobs.append([ck.CLANG, *fl, "-isystem", os.path.join(h, "inc"), *extra, "-c", s, "-o", o])
        objs.append(o)
    ck.compile_all(jobs)
    ck.compile_all([["wasm-ld", "--no-entry", "--export-all", "--max-memory=%d" % (128 << 20), "-z", "stack-size=262144", "-o", os.path.join(js, "libspot.wasm"),
                     *objs]])
    shutil.copy(os.path.join(h, "core.mjs"), os.path.join(js, "libspot.core.js"))
    with open(os.path.join(js, "package.json"), "w") as f:
        f.write('{"type": "module"}\n')
    ck.compile_all([["/opt/veriftools/node/node_modules/.bin/esbuild", os.path.join(rc, "wasm", "index.ts"), "--format=esm", "--target=esnext",
                     "--outfile=" + os.path.join(js, "index.js"), "--log-level=error"]])
    shutil.copy(os.path.join(h, "worker.mjs"), js)
    # native reference
    nat = os.path.join(bdir, "native")
    os.makedirs(nat)
    jobs, objs = ck.lib_jobs(dict(cc="gcc", cflags=["-O2", "-std=c99"]), nat, ("-fPIC",))
    shim = os.path.join(nat, "shim.o")
    jobs.append(["gcc", "-O2", "-std=c99", "-fPIC", "-w", "-I" + os.path.join(ck.REPO, "include"), "-c", os.path.join(ck.HARNESS, "pyshim.c"), "-o", shim])
    ck.compile_all(jobs)
    so = os.path.join(nat, "ref.so")
    ck.compile_all([["gcc", "-shared", "-Wl,-Bsymbolic", *objs, shim, "-o", so]])
    return dict(os.environ, VP_REF=so, VP_NODE=node(), VP_JS=os.path.join(js, "index.js"), VP_JSWORKER=os.path.join(js, "worker.mjs"), PYTHONHASHSEED="0")


def exec_case(case, env, path):
    with open(path, "w") as f:
        json.dump(case, f)
    try:
        r = ck.sh([sys.executable, WORKER, "exec", path], env=env, timeout=120)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 97, "HANG: no answer in 120 s"


def shrink(case, env, path, budget=60):
    t0 = time.time()
    fails = lambda c: time.time() - t0 < budget and exec_case(c, env, path)[0] != 0
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        step = max(1, len(case["ops"]) // 2)
        while step >= 1:
            i = 0
            while i < len(case["ops"]):
                c = dict(case, ops=case["ops"][:i] + case["ops"][i + step:])
                if fails(c):
                    case, changed = c, True
                else:
                    i += step
            step //= 2
        for i, op in enumerate(case["ops"]):
            for m in (5, len(op.get("x", "")) // 2):
                if op["k"] == "fit" and 0 < m < len(op["x"]):
                    c = dict(case, ops=[o if j != i else dict(op, x=op["x"][:m]) for j, o in enumerate(case["ops"])])
                    if fails(c):
                        case, changed = c, True
                        break
    return case


def main(prop, args):
    bdir = ck.build_dir(prop)
    ev = ck.Evidence(prop)
    ev.rule = RULE
    ev.assumptions = ["the WebAssembly core is built with clang and a small libc instead of emscripten, and libspot.core.js is a stand-in with the same interface"]
    env = build(bdir)
    if "--replay" in args:
        path = args[args.index("--replay") + 1]
        d = json.load(open(path))
        if "case" in d:
            rc, msg = exec_case(d["case"], env, os.path.join(bdir, "case.json"))
        else:
            r = ck.sh([sys.executable, WORKER, "run", *d["run"], os.path.join(bdir, "o")], env=env)
            rc, msg = r.returncode, r.stdout
        print(msg)
        shutil.rmtree(bdir, ignore_errors=True)
        if rc:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("%s: the recorded case passes" % prop)
        return 0
    W = ck.WORKERS
    n = (CASES[1] if ck.TIER == "thorough" else CASES[0]) // W
    procs = []
    for w in range(W):
        o = os.path.join(bdir, "w%d" % w)
        procs.append((subprocess.Popen([sys.executable, WORKER, "run", str(ck.SEED), str(w), str(W), str(n), o], stdout=open(o + ".log", "w"),
                                       stderr=subprocess.STDOUT, env=env), o, w))
    for p, o, w in procs:
        p.wait()
    for p, o, w in procs:
        if p.returncode == 0:
            d = json.load(open(o))
            ev.eval += d["done"]
            ev.distinct += d["distinct"]
            for k, v in d["labels"].items():
                ev.labels[k] = ev.labels.get(k, 0) + v
            ev.samples += d["samples"][:1]
    for p, o, w in procs:
        if p.returncode == 0:
            continue
        run = [str(ck.SEED), str(w), str(W), str(n)]
        log = open(o + ".log", errors="replace").read()
        tmp = os.path.join(bdir, "shrink.json")
        spec, msg = None, log
        if os.path.exists(o + ".case"):
            case = json.load(open(o + ".case"))
            got = [exec_case(case, env, tmp) for _ in range(3)]
            if all(rc for rc, _ in got):
                case = shrink(case, env, tmp)
                rc, msg = exec_case(case, env, tmp)
                if rc == 0:
                    msg = got[0][1]
                spec = dict(case=case)
        if spec is None:
            again = [ck.sh([sys.executable, WORKER, "run", *run, o], env=env) for _ in range(2)]
            if not all(r.returncode for r in again):
                ev.extra["irreproducible_failures"] = ev.extra.get("irreproducible_failures", 0) + 1
                print("NOTE: a failure of worker %d did not reproduce; not reported" % w)
                continue
            spec, msg = dict(run=run), again[0].stdout
        path = os.path.join(ck.replay_dir(), "%s-seed%d.json" % (prop, ck.SEED))
        json.dump(dict(property=prop, message=msg[-6000:], how="python3 %s %s --replay %s" % (os.path.join(ck.VERIF, "check.py"), prop, path), **spec),
                  open(path, "w"), indent=1)
        ck.report(prop, ev, path, msg[-3000:])
    ck.finish(prop, ev)
    shutil.rmtree(bdir, ignore_errors=True)
    return 0
