"""Worker of C18: generates operation scripts, computes what the C library answers
(native build, ctypes), has node run them on the JavaScript binding, compares.

  js_worker.py run  SEED WORKER WORKERS CASES OUT
  js_worker.py exec CASE.json
Environment: VP_REF (reference .so), VP_NODE (node binary), VP_JS (bundle), VP_JSWORKER.
"""
import collections, ctypes, json, math, os, random, struct, subprocess, sys

ref = ctypes.CDLL(os.environ["VP_REF"])
D, UL, I, P = ctypes.c_double, ctypes.c_ulong, ctypes.c_int, ctypes.c_void_p
for name, res, args in (("new", P, []), ("init", I, [P, D, I, I, D, UL]), ("fit", I, [P, P, UL]), ("step", I, [P, D]),
                        ("quantile", D, [P, D]), ("probability", D, [P, D]), ("free", None, [P]), ("error", None, [I, ctypes.c_char_p, UL]),
                        ("version", None, [ctypes.c_char_p, UL]), ("doubles", None, [P, P])):
    f = getattr(ref, "ref_" + name)
    f.restype, f.argtypes = res, args
ROOM = (64 << 20) // 8  # values the wasm heap can hold at most
NAN = float("nan")


class Bad(Exception):
    pass


def hexd(x):
    return struct.pack(">d", x).hex()


def unhex(h):
    return struct.unpack(">d", bytes.fromhex(h))[0]


def shown(x):
    return "nan" if x != x else hexd(x)


def message(code):
    b = ctypes.create_string_buffer(256)
    ref.ref_error(-code, b, 256)
    return b.value.decode()


class Model:
    """the C library for each detector, and what the binding should answer"""

    def __init__(self):
        self.d = {}

    def close(self):
        for p in self.d.values():
            ref.ref_free(p)
        self.d = {}

    def expect(self, op):
        k = op["k"]
        if k == "new":
            c = dict(low=0, discardAnomalies=1, level=0.98, maxExcess=500)
            c.update({n: (unhex(v) if isinstance(v, str) else v) for n, v in op["cfg"].items()})
            p = ref.ref_new()
            cap = c["maxExcess"]
            code = ref.ref_init(p, c["q"], c["low"], c["discardAnomalies"], c["level"], cap if cap <= ROOM - 100000 else 2 ** 64 - 1)
            if code < 0:
                ref.ref_free(p)
                return ["error", message(code), "Error"]
            self.d[op["d"]] = p
            return ["ok", "created"]
        if k == "drop":
            p = self.d.pop(op["d"], None)
            if p:
                ref.ref_free(p)
            return ["ok", "dropped"]
        if k == "error":
            return ["ok", message(-op["code"])]
        if k == "version":
            b = ctypes.create_string_buffer(64)
            ref.ref_version(b, 24)
            return ["ok", b.value.decode()]
        if k == "size":
            return ["ok", None]
        if k == "consts":
            return ["ok", [0, 1, 2, True]]
        p = self.d.get(op["d"])
        if p is None:
            return None  # operation on a detector that does not exist: skipped
        if k == "fit":
            x = [unhex(v) for v in op["x"]]
            b = (D * max(1, len(x)))(*x)
            code = ref.ref_fit(p, ctypes.addressof(b), len(x))
        elif k == "step":
            code = ref.ref_step(p, unhex(op["x"]))
        elif k == "state":
            o = (D * 11)()
            ref.ref_doubles(p, ctypes.addressof(o))
            return ["ok", [shown(o[3]), shown(o[2])]]
        else:
            return ["ok", shown(getattr(ref, "ref_" + k)(p, unhex(op["x"])))]
        return ["error", message(code), "Error"] if code < 0 else ["ok", code]

    def thresholds(self, d):
        o = (D * 11)()
        ref.ref_doubles(self.d[d], ctypes.addressof(o))
        return o[3], o[2]


def draw(r, fam):
    kind, scale, off = fam
    u = r.random()
    x = {"normal": lambda: r.gauss(0, 1), "exp": lambda: -math.log(1 - u), "pareto": lambda: (1 - u) ** -0.4, "lattice": lambda: float(int(u * 12)),
         "const": lambda: 1.0, "uniform": lambda: u}[kind]()
    return off + scale * x


def gen_cfg(r):
    level = r.choice([0.98, 0.9, 0.95, 0.5, 0.8, r.uniform(0, 0.999), r.choice([0.0, 0.99, 0.999, 1e-3, r.uniform(0, 0.1), 0.25])])
    q = (1 - level) * r.choice([0.1, 0.5, 0.01, r.random() * 0.98 + 0.01])
    c = {}
    for k, v in (("low", r.choice([0, 1, 1, 2])), ("discardAnomalies", r.choice([0, 1, 0, 3])), ("level", level), ("maxExcess", r.choice([10, 50, 200, r.randint(1, 30)]))):
        if r.random() < 0.6:
            c[k] = v
    if "level" not in c:
        q = min(0.02 * r.random() + 1e-9, 0.0199)
    w = r.random()
    if w < 0.05:
        q = r.choice([0.0, -0.1, 1.0, NAN, 1 - c.get("level", 0.98), float("inf")])
    elif w < 0.1:
        c["level"] = r.choice([1.0, -0.01, 1.5, NAN])
    elif w < 0.15:
        c["maxExcess"] = r.choice([0, 2 ** 29 - 1, 2 ** 29, 2 ** 31, 2 ** 32 - 1])
    elif w < 0.18:
        c["maxExcess"] = r.choice([20000, 100000])  # makes the wasm memory grow
    c["q"] = q
    if "level" in c:
        c["level"] = hexd(c["level"])
    c["q"] = hexd(q)
    return c


def margin(r):
    """values before or after the ones given, in the same buffer"""
    return r.randint(0, 6) if r.random() < 0.9 else int(10 ** r.uniform(1, 5))


def gen(r):
    m = Model()
    ops, fams, lows, qs, nxt = [], {}, {}, {}, 0

    def add(op):
        ops.append(op)
        return m.expect(op)

    for _ in range(r.choice([3, 10, 30, 80])):
        k = r.random()
        if not m.d or k < 0.05:
            op = {"k": "new", "d": nxt, "cfg": gen_cfg(r)}
            if add(op)[0] == "ok":
                fams[nxt] = [r.choice(["normal", "normal", "exp", "uniform", "pareto", "lattice", "const"]), r.choice([1.0, 1.0, 10 ** r.uniform(-5, 5)]),
                             r.choice([0.0, r.uniform(-10, 10)])]
                qs[nxt] = unhex(op["cfg"]["q"])
                lows[nxt] = op["cfg"].get("low", 0) != 0
                n = r.choice([r.randint(5, 40), r.randint(50, 800)])
                if r.random() < 0.01:
                    n = r.choice([r.randint(800, 6000), r.randint(800, 6000), r.randint(6000, 70000)])
                add({"k": "fit", "d": nxt, "mode": r.choice(["plain", "view", "subarray", "shared"]), "pre": margin(r), "post": margin(r),
                     "x": [hexd(draw(r, fams[nxt])) for _ in range(n)]})
                add({"k": "state", "d": nxt})
            nxt += 1
            continue
        d = r.choice(list(m.d))
        if k < 0.10:
            n = r.choice([r.randint(0, 4), r.randint(5, 40), r.randint(50, 800)])
            x = [draw(r, fams[d]) for _ in range(n)]
            if x and r.random() < 0.15:
                x = [NAN if r.random() < 0.5 else v for v in x]
            add({"k": "fit", "d": d, "mode": r.choice(["plain", "view", "subarray", "shared"]), "pre": margin(r), "post": margin(r),
                 "x": [hexd(v) for v in x]})
        elif k < 0.65:
            et, at = m.thresholds(d)
            up = -1 if lows[d] else 1
            gap = abs(at - et) if math.isfinite(at - et) else 1.0
            x = r.choice([draw(r, fams[d]), draw(r, fams[d]), et, at, et + up * gap * r.random(), et + up * gap * r.random(), at + up * gap * r.random(),
                          NAN, float("inf"), -float("inf"), r.choice([0.0, -0.0, -1.0, 1.0, 100.0, -999.0])] if r.random() < 0.5 else [draw(r, fams[d]), et + up * gap * r.random()])
            add({"k": "step", "d": d, "x": hexd(x)})
        elif k < 0.75:
            add({"k": "quantile", "d": d, "x": hexd(r.choice([10 ** r.uniform(-9, 0), 0.0, 1.0, -1.0, r.uniform(-2, 2), NAN, 10 ** r.uniform(-300, -9), qs[d]]))})
        elif k < 0.85:
            add({"k": "probability", "d": d, "x": hexd(r.choice([draw(r, fams[d]), draw(r, fams[d]) * 5, NAN, float("inf"), -float("inf"), 0.0, -1.0, 1.0, *m.thresholds(d)]))})
        elif k < 0.94:
            add({"k": "state", "d": d})
        elif k < 0.96:
            add({"k": "drop", "d": d})
        elif k < 0.98:
            add({"k": "error", "code": r.choice([1000, 1001, 1002, 1003, 1004, 1005, 999, 1006, 0, -1000])})
        else:
            add({"k": r.choice(["version", "size", "consts"])})
    m.close()
    return ops


class Node:
    def __init__(self):
        self.start()

    def start(self):
        self.p = subprocess.Popen([os.environ["VP_NODE"], "--expose-gc", "--max-old-space-size=800", os.environ["VP_JSWORKER"], os.environ["VP_JS"]],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    def run(self, ops):
        try:
            self.p.stdin.write(json.dumps(ops) + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        line = self.p.stdout.readline()
        if not line.startswith("{"):
            rest = line + (self.p.stdout.read() or "")
            self.p.wait()
            raise Bad("node stopped (exit %s): %s" % (self.p.returncode, rest[-2000:]))
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def check(ops, node, lab):
    m = Model()
    exp = [m.expect(o) for o in ops]
    m.close()
    todo = [(o, e) for o, e in zip(ops, exp) if e is not None]
    a = node.run([o for o, _ in todo])
    fits = exc = 0
    for k, ((op, want), got) in enumerate(zip(todo, a["out"])):
        when = "operation %d %s" % (k, str(op)[:160])
        r = got["res"]
        if op["k"] == "size":
            if r[0] != "ok" or not (isinstance(r[1], int) and 64 < r[1] < 512):
                raise Bad("%s: %r" % (when, r))
        elif r != want:
            raise Bad("%s: the binding answers %r, the C library %r" % (when, r, want))
        if got["after"][2] or got["after"][3]:
            raise Bad("%s: %d wrong frees, %d overruns of heap blocks" % (when, got["after"][2], got["after"][3]))
        if op["k"] not in ("new", "drop") and got["after"][:2] > got["before"][:2]:
            raise Bad("%s: left %d more heap blocks (%d bytes)" % (when, got["after"][0] - got["before"][0], got["after"][1] - got["before"][1]))
        lab["%s %s" % (op["k"], r[0])] += 1
        fits += op["k"] == "fit" and r[0] == "ok"
        exc += op["k"] == "step" and r[1] == 1
    if a["end"][0] > a["start"][0]:  # collection may come late: give it more chances
        for _ in range(5):
            b = node.run([])
            if b["end"][0] <= a["start"][0]:
                lab["late collection"] += 1
                break
        else:
            raise Bad("discarded detectors keep %d heap blocks (%d bytes)" % (b["end"][0] - a["start"][0], b["end"][1] - a["start"][1]))
    return fits > 0 and exc > 0


def main():
    lab = collections.Counter()
    node = Node()
    node.run([])
    if sys.argv[1] == "exec":
        try:
            check(json.load(open(sys.argv[2]))["ops"], node, lab)
        except Bad as e:
            print("FAILED: %s" % e)
            return 1
        return 0
    seed, w, nw, n, out = int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6]
    done, distinct, samples = 0, set(), []
    for i in range(n):
        r = random.Random("%d/%d/%d/C18" % (seed, w, i))
        case = gen(r)
        txt = json.dumps({"ops": case})
        with open(out + ".case", "w") as f:
            f.write(txt)
        try:
            nt = check(case, node, lab)
        except Bad as e:
            print("FAILED: %s" % e)
            return 1
        done += 1
        if nt:
            distinct.add(hash(txt))
            if len(samples) < 2:
                samples.append(txt[:600])
    node.close()
    with open(out, "w") as f:
        json.dump(dict(done=done, distinct=len(distinct), labels=lab, samples=samples), f)
    return 0


if __name__ == "__main__":
    sys.exit(main())
