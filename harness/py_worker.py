"""Worker of the Python-binding checks C16 and C17: generates cases, runs them on
the freshly built extension module, compares with the C library (ctypes).

  py_worker.py run  PROP SEED WORKER WORKERS CASES OUT
  py_worker.py exec PROP CASE.json          exit 0 held, 1 failed, other: died
Environment: VP_EXT (directory of the module), VP_REF (reference .so), VP_LEAK.
"""
import array, collections, copy, ctypes, decimal, fractions, gc, itertools, json, math, os, pickle, random, sys, threading

sys.path.insert(0, os.environ["VP_EXT"])
import libspot
from libspot import Spot

try:
    import numpy as np
except Exception:  # numpy is optional
    np = None

ref = ctypes.CDLL(os.environ["VP_REF"])
D, UL, I, P = ctypes.c_double, ctypes.c_ulong, ctypes.c_int, ctypes.c_void_p
for name, res, args in (("new", P, []), ("init", I, [P, D, I, I, D, UL]), ("fit", I, [P, P, UL]), ("step", I, [P, D]),
                        ("quantile", D, [P, D]), ("probability", D, [P, D]), ("free", None, [P]), ("error", None, [I, ctypes.c_char_p, UL]),
                        ("version", None, [ctypes.c_char_p, UL]), ("doubles", None, [P, P]), ("ints", None, [P, P]), ("window", UL, [P, P, UL]),
                        ("size", UL, []), ("age", None, [P, UL, UL])):
    f = getattr(ref, "ref_" + name)
    f.restype, f.argtypes = res, args


class Bad(Exception):
    """the property does not hold"""


def need(cond, msg, *a):
    if not cond:
        raise Bad(msg % a if a else msg)


def same(a, b):
    return a == b or (a != a and b != b)


class Ref:
    def __init__(self):
        self.p = ref.ref_new()
        self.ok = False

    def __del__(self):
        ref.ref_free(self.p)

    def state(self):
        d, i = (D * 11)(), (UL * 7)()
        ref.ref_doubles(self.p, ctypes.addressof(d))
        ref.ref_ints(self.p, ctypes.addressof(i))
        n = ref.ref_window(self.p, None, 0)
        w = (D * max(n, 1))()
        ref.ref_window(self.p, ctypes.addressof(w), n)
        return list(d), list(i), list(w)[:n]


def message(code):
    b = ctypes.create_string_buffer(256)
    ref.ref_error(-code, b, 256)
    return b.value.decode()


# ------------------------------------------------------------------ values
class FloatObj:
    def __init__(self, x):
        self.x = x

    def __float__(self):
        return self.x


class FloatSub(float):
    pass


class IndexObj:
    def __init__(self, x):
        self.x = x

    def __index__(self):
        return self.x


def wrap(kind, x):
    """the double x as a Python object of some kind (falls back to float)"""
    fin = math.isfinite(x)
    try:
        if kind == "int" and fin and x == int(x):
            return int(x)
        if kind == "bool" and x in (0.0, 1.0):
            return bool(x)
        if kind == "np64" and np:
            return np.float64(x)
        if kind == "np32" and np and float(np.float32(x)) == x:
            return np.float32(x)
        if kind == "obj":
            return FloatObj(x)
        if kind == "sub":
            return FloatSub(x)
        if kind == "index" and fin and x == int(x):
            return IndexObj(int(x))
        if kind == "frac" and fin:
            return fractions.Fraction(x)
        if kind == "dec":
            return decimal.Decimal(x)
    except (OverflowError, ValueError):
        pass
    return x


KINDS = ["float", "float", "int", "bool", "np64", "np32", "obj", "sub", "index", "frac", "dec"]


class Seq:
    def __init__(self, l):
        self.l = l

    def __len__(self):
        return len(self.l)

    def __getitem__(self, i):
        return self.l[i]


class Iter:
    def __init__(self, l):
        self.l = l

    def __iter__(self):
        return iter(self.l)


CONTAINERS = ["list", "tuple", "array", "np", "npview", "gen", "iter", "deque", "seq", "iterable", "map", "memoryview", "dictvalues", "listsub"]


# containers that change the values or their order: the data are what iterating over them gives
SHAPING = ["set", "frozenset", "dict", "arrayf", "arrayq", "bytes", "bytearray", "npf32", "npint", "nplist", "range", "chain"]


class ListSub(list):
    pass


def shape(kind, data):
    small = [int(max(-1e15, min(1e15, x))) if math.isfinite(x) else 0 for x in data]
    f32 = [x if not math.isfinite(x) or abs(x) < 3e38 else 1.0 for x in data]
    if kind in ("set", "frozenset"):
        a = set(data) if kind == "set" else frozenset(data)
    elif kind == "dict":
        a = dict.fromkeys(data)
    elif kind == "arrayf":
        a = array.array("f", f32)
    elif kind == "arrayq":
        a = array.array("q", small)
    elif kind in ("bytes", "bytearray"):
        a = (bytes if kind == "bytes" else bytearray)(x & 255 for x in small)
    elif kind == "npf32" and np:
        a = np.array(f32, dtype=np.float32)
    elif kind == "npint" and np:
        a = np.array(small, dtype=np.int64)
    elif kind == "nplist" and np:
        a = [np.float64(x) for x in data]
    elif kind == "range":
        a = range(-(len(data) // 3), 2 * len(data), 2)
    else:
        a = list(data)
    eff = [float(x) for x in a]
    return (itertools.chain(a[:3], a[3:]) if kind == "chain" else a), eff


def contain(kind, items, data):
    if kind == "tuple":
        return tuple(items)
    if kind == "array":
        return array.array("d", data)
    if kind == "np" and np:
        return np.array(data, dtype=float)
    if kind == "npview" and np:
        a = np.full(2 * len(data) + 3, 7.5)
        a[1:1 + 2 * len(data):2] = data
        return a[1:1 + 2 * len(data):2]
    if kind == "gen":
        return (x for x in items)
    if kind == "iter":
        return iter(items)
    if kind == "deque":
        return collections.deque(items)
    if kind == "seq":
        return Seq(items)
    if kind == "iterable":
        return Iter(items)
    if kind == "map":
        return map(lambda v: v, items)
    if kind == "memoryview":
        return memoryview(array.array("d", data))
    if kind == "dictvalues":
        return dict(enumerate(items)).values()
    if kind == "listsub":
        return ListSub(items)
    return list(items)


# ------------------------------------------------------------------ data
def gen_data(r, n, fam):
    kind, scale, off = fam
    out = []
    for _ in range(n):
        u = r.random()
        if kind == "normal":
            x = r.gauss(0, 1)
        elif kind == "exp":
            x = -math.log(1 - u)
        elif kind == "pareto":
            x = (1 - u) ** -0.4
        elif kind == "lattice":
            x = float(int(u * 12))
        elif kind == "const":
            x = 1.0
        else:
            x = u
        out.append(off + scale * x)
    return out


def gen_family(r):
    return [r.choice(["normal", "normal", "exp", "uniform", "pareto", "lattice", "lattice", "const"]),
            r.choice([1.0, 1.0, 10 ** r.uniform(-5, 5)]), r.choice([0.0, 0.0, r.uniform(-10, 10)])]


def gen_kwargs(r, valid=False):
    level = r.choice([0.98, 0.9, 0.95, 0.5, 0.8, r.uniform(0, 0.999), r.choice([0.0, 0.0, 0.99, 0.999, 0.9999, 1e-3, r.uniform(0, 0.1), 0.2, 0.25])])
    q = (1 - level) * r.choice([0.1, 0.5, 0.01, 10 ** r.uniform(-12, -2), r.random() * 0.98 + 0.01])
    kw = {}
    for k, v in (("low", r.choice([0, 1, 1, 2, -1])), ("discard_anomalies", r.choice([0, 1, 0, 3])), ("level", level),
                 ("max_excess", r.choice([10, 50, 200, r.randint(1, 30)]))):
        if r.random() < 0.6:
            kw[k] = v
    if "level" not in kw:
        q = 0.02 * r.random() + 1e-9
        q = min(q, 0.0199)
    if not valid and r.random() < 0.15:
        w = r.randrange(3)
        if w == 0:
            q = r.choice([0.0, -0.1, 1.0, 2.0, float("nan"), 1 - kw.get("level", 0.98), float("inf")])
        elif w == 1:
            kw["level"] = r.choice([1.0, -0.01, 1.5, float("nan"), float("-inf")])
        else:
            kw["max_excess"] = r.choice([0, 2 ** 64 - 1, 2 ** 61, 2 ** 63, 2 ** 40 + 5, 2 ** 45 + 20, 2 ** 64 + 10, 2 ** 64, 2 ** 96 + 7, -1, -2 ** 64 + 9])
    return q, kw


# ------------------------------------------------------------------ C16
# values that binding code may take for something else
ROUND = [0.0, -0.0, -1.0, 1.0, 2.0, -2.0, 0.5, 10.0, 100.0, 255.0, 256.0, -999.0, 1e6, -1e6]
def gen_c16(r):
    q, kw = gen_kwargs(r)
    fam = gen_family(r)
    ops = []
    nops = r.choice([2, 5, 15, 40, 80])
    for i in range(nops):
        k = r.random()
        if r.random() < 0.0002:  # a long batch, made when run
            ops.append(["bigfit", r.choice(CONTAINERS), r.choice([32768, 50001, 65536, 70000, 131073]) + r.randrange(3), r.randrange(1 << 20)])
        if r.random() < 0.004:  # as after a very long stream
            ops.append(["age", 2 ** r.choice([31, 32, 33, 40, 53, 62]) + r.randrange(5) - 3, r.choice([0.02, 0.1, 0.5])])
        if i == 0 or k < 0.06:
            n = r.choice([r.randint(5, 40), r.randint(5, 40), r.randint(50, 1500), r.randint(0, 4)])
            data = gen_data(r, n, fam)
            if r.random() < 0.05 and data:
                data[r.randrange(len(data))] = r.choice([float("nan"), float("inf"), -float("inf")])
            if r.random() < 0.1 and data:
                for _ in range(r.randint(1, 3)):
                    data[r.randrange(len(data))] = r.choice(ROUND)
            ops.append(["fit", r.choice(CONTAINERS + SHAPING), r.choice(KINDS + ["mix"]), data])
        elif k < 0.75:
            w = r.random()
            if w < 0.45:
                x = gen_data(r, 1, fam)[0]
            else:  # relative to the current thresholds, decided when run
                x = r.choice(["et", "at", "beyond", "between", "between", "between", "nan", "inf", "-inf",
                              r.choice([1e30, -1e30, 2.0 ** 63, -2.0 ** 63, 2.0 ** 64, 2.0 ** 31, -2.0 ** 31, 2.0 ** 32, 1e300, -1e308, 0.0, -0.0, 5e-324, 3e10, -7.0]), r.choice(ROUND)])
            ops.append(["step", r.choice(KINDS), x, r.random()])
        elif k < 0.87:
            ops.append(["quantile", r.choice(KINDS), r.choice([10 ** r.uniform(-9, 0), 0.0, 1.0, -1.0, 0.5, r.uniform(-2, 2), float("nan"),
                        10 ** r.uniform(-300, -9), "q", "1-level"])])
        elif k < 0.97:
            ops.append(["probability", r.choice(KINDS), r.choice([r.choice([1e30, -1e30, 2.0 ** 63, 2.0 ** 32, -2.0 ** 33, 1e300]), gen_data(r, 1, fam)[0], gen_data(r, 1, fam)[0] * 5, float("nan"), float("inf"), r.choice(ROUND), "et", "at"])])
        else:
            q2, kw2 = gen_kwargs(r)
            ops.append(["reinit", q2, kw2])
    return {"q": q, "qkind": r.choice(KINDS), "kw": kw, "kwkind": r.choice(KINDS), "sub": r.random() < 0.2, "ops": ops, "r": r.randrange(1 << 30)}


class Sub(Spot):
    pass


def outcome(f, *a, **k):
    try:
        return ("ok", f(*a, **k))
    except Exception as e:  # noqa
        e.__context__ = e.__cause__ = None
        return ("exc", e.with_traceback(None))


def compare(s, rf, when):
    d, i, w = rf.state()
    for name, v in zip(("q", "level", "anomaly_threshold", "excess_threshold", "gamma", "sigma"), d):
        got = getattr(s, name)
        need(type(got) is float and same(got, v), "%s: attribute %s is %r, the C structure has %r", when, name, got, v)
    need(s.Nt == i[2] and s.n == i[3], "%s: Nt, n are %r, %r; the C structure has %r, %r", when, s.Nt, s.n, i[2], i[3])
    ex = s.excesses()
    need(type(ex) is list and len(ex) == len(w) and all(type(a) is float and same(a, b) for a, b in zip(ex, w)),
         "%s: excesses() is %r..., the C window is %r... (%d vs %d values)", when, ex[:4], w[:4], len(ex), len(w))
    dd = s.as_dict()
    t = dd["tail"]
    p = t["peaks"]
    c = p["container"]
    flat = [dd["q"], dd["level"], dd["anomaly_threshold"], dd["excess_threshold"], t["gamma"], t["sigma"], p["e"], p["e2"], p["min"], p["max"],
            c["last_erased_data"]]
    names = "q level anomaly_threshold excess_threshold gamma sigma e e2 min max last_erased_data".split()
    for nm, a, b in zip(names, flat, d):
        need(same(a, b), "%s: as_dict() has %s = %r, the C structure has %r", when, nm, a, b)
    flat = [dd["discard_anomalies"], dd["low"], dd["Nt"], dd["n"], c["cursor"], c["capacity"], c["filled"]]
    for nm, a, b in zip("discard_anomalies low Nt n cursor capacity filled".split(), flat, i):
        need(a == b, "%s: as_dict() has %s = %r, the C structure has %r", when, nm, a, b)
    need(len(c["data"]) == len(w) and all(same(a, b) for a, b in zip(c["data"], w)), "%s: as_dict() window differs", when)
    raw = s.raw()
    need(type(raw) is bytearray and len(raw) == ref.ref_size(), "%s: raw() has %d bytes, the structure %d", when, len(raw), ref.ref_size())
    image = ctypes.create_string_buffer(bytes(raw), len(raw))  # read with the library's own headers
    flat, ints = (D * 11)(), (UL * 7)()
    ref.ref_doubles(ctypes.addressof(image), ctypes.addressof(flat))
    ref.ref_ints(ctypes.addressof(image), ctypes.addressof(ints))
    need(all(same(a, b) for a, b in zip(flat, d)), "%s: raw() holds %r, the C structure %r", when, list(flat), d)
    need(list(ints) == i, "%s: raw() holds %r, the C structure %r", when, list(ints), i)


DEFAULTS = dict(low=0, discard_anomalies=1, level=0.98, max_excess=500)


def do_init(make, rf_new, q, kw, qkind, kwkind, when):
    full = dict(DEFAULTS, **kw)
    if not 0 <= full["max_excess"] < 2 ** 64:  # no C counterpart: an error, never another capacity
        o, v = outcome(make, q, **kw)
        need(o == "exc" and not isinstance(v, SystemError), "%s: a capacity that does not fit gives %s %r", when, o, v)
        return None
    code = ref.ref_init(rf_new.p, q, full["low"], full["discard_anomalies"], full["level"], full["max_excess"])
    kwo = {k: (wrap(kwkind, v) if k == "level" else wrap(kwkind, v) if k in ("low", "discard_anomalies") and kwkind in ("bool", "index") else v)
           for k, v in kw.items()}
    if full["max_excess"] % 3:
        o, v = outcome(make, wrap(qkind, q), **kwo)
    else:  # all by keyword, in another order
        o, v = outcome(make, **dict(reversed(list(kwo.items()))), q=wrap(qkind, q))
    if code < 0:
        need(o == "exc" and type(v) is RuntimeError, "%s: creation refused by the C library with %d gives %s %r", when, code, o, v)
        need(str(v) == message(code), "%s: message %r instead of %r", when, str(v), message(code))
        return None
    need(o == "ok", "%s: creation accepted by the C library raises %r", when, v)
    return v if v is not None else True


def age(s, rf, n, nt):
    """gives both structures the counters of a very long stream (if the structure is found inside the Python object)"""
    raw = bytes(s.raw())
    size = type(s).__basicsize__
    mem = ctypes.string_at(id(s), size)
    at = mem.find(raw)
    if at < 0 or mem.find(raw, at + 1) >= 0:
        return False
    for base in (id(s) + at, rf.p):
        ref.ref_age(base, n, nt)
    return True


def run_c16(case, lab):
    cls = Sub if case["sub"] else Spot
    rf = Ref()
    s = do_init(cls, rf, case["q"], case["kw"], case["qkind"], case["kwkind"], "Spot(%r, %r)" % (case["q"], case["kw"]))
    if s is None:
        lab["creation refused"] += 1
        return False
    compare(s, rf, "after creation with %r" % (case["kw"],))
    excesses = fits = 0
    up = -1 if case["kw"].get("low", 0) else 1
    for k, op in enumerate(case["ops"]):
        when = "operation %d %s" % (k, str(op)[:200])
        if op[0] == "age":
            if age(s, rf, op[1], int(op[1] * op[2])):
                lab["long history"] += 1
        elif op[0] in ("fit", "bigfit"):
            if op[0] == "bigfit":
                rr = random.Random(op[3])
                _, cont, kind, data = op[0], op[1], "float", [rr.gauss(0, 1) for _ in range(op[2])]
                lab["long batch"] += 1
            else:
                _, cont, kind, data = op
            if cont in SHAPING:
                arg, data = shape(cont, data)
            else:
                items = [wrap(KINDS[j % len(KINDS)] if kind == "mix" else kind, x) for j, x in enumerate(data)]
                arg = contain(cont, items, data)
            buf = (D * max(1, len(data)))(*data)
            code = ref.ref_fit(rf.p, ctypes.addressof(buf), len(data))
            o, v = outcome(s.fit, arg)
            if code < 0:
                need(o == "exc" and type(v) is RuntimeError and str(v) == message(code), "%s: the C library answers %d (%s), Python %s %r", when, code,
                     message(code), o, v)
                lab["fit refused"] += 1
            else:
                need(o == "ok" and v is None, "%s: the C library fits, Python %s %r", when, o, v)
                fits += 1
            lab["fit from " + cont] += 1
        elif op[0] == "step":
            d, _, _ = rf.state()
            x = op[2]
            if isinstance(x, str):
                at, et = d[2], d[3]
                gap = abs(at - et) if math.isfinite(at - et) else 1.0
                x = {"et": et, "at": at, "beyond": at + up * gap * (op[3] + 0.001), "between": et + up * gap * op[3], "nan": float("nan"),
                     "inf": float("inf"), "-inf": -float("inf")}[x]
            want = ref.ref_step(rf.p, x)
            o, v = outcome(s.step, wrap(op[1], x))
            need(o == "ok" and type(v) is int and v == want, "%s: step(%r) is %d in C, %s %r in Python", when, x, want, o, v)
            excesses += want == 1
            lab["verdict %d" % want] += 1
        elif op[0] == "reinit":
            nr = Ref()
            v = do_init(lambda *a, **kw: s.__init__(*a, **kw), nr, op[1], op[2], "float", "float", when)
            if v is not None:
                rf = nr
                up = -1 if op[2].get("low", 0) else 1
            lab["__init__ again"] += 1
        else:
            x = op[2]
            if isinstance(x, str):  # a number of the detector itself
                d = rf.state()[0]
                x = {"q": d[0], "1-level": 1 - d[1], "at": d[2], "et": d[3]}[x]
            want = getattr(ref, "ref_" + op[0])(rf.p, x)
            o, v = outcome(getattr(s, op[0]), wrap(op[1], x))
            need(o == "ok" and type(v) is float and same(v, want), "%s: %r in C, %s %r in Python", when, want, o, v)
            lab[op[0]] += 1
        compare(s, rf, when)
    b = ctypes.create_string_buffer(64)
    ref.ref_version(b, 64)
    need(libspot.__version__ == b.value.decode(), "__version__ is %r, the library says %r", libspot.__version__, b.value)
    need((libspot.NORMAL, libspot.EXCESS, libspot.ANOMALY) == (0, 1, 2), "verdict constants are wrong")
    return fits > 0 and excesses > 0


# ------------------------------------------------------------------ C17
class Boom(Exception):
    pass


class Raises:
    def __float__(self):
        raise Boom("no float")


class Returns:
    def __float__(self):
        return "x"


class Acts:
    """a number whose conversion runs something"""

    def __init__(self, x, act):
        self.x, self.act = x, act

    def __float__(self):
        self.act()
        return self.x


class LyingSeq:
    def __init__(self, items, n):
        self.items, self.n = items, n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return self.items[i]


class RaisingSeq:
    def __init__(self, items, at):
        self.items, self.at = items, at

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        if i >= self.at:
            raise Boom("item")
        return self.items[i]


def raising_gen(items, at):
    for k, x in enumerate(items):
        if k == at:
            raise Boom("gen")
        yield x


BADVALUES = ["none", "str", "bytes", "list", "complex", "raises", "returns", "huge", "dict", "object", "type", "nparray", "emptytuple"]


def bad(kind):
    return {"none": None, "str": "1.0", "bytes": b"1", "list": [1.0], "complex": 1j, "raises": Raises(), "returns": Returns(), "huge": 10 ** 400,
            "dict": {}, "object": object(), "type": float, "nparray": np.array([1.0, 2.0]) if np else "x", "emptytuple": ()}[kind]


def gen_c17(r):
    q, kw = gen_kwargs(r, valid=True)
    fam = gen_family(r)
    ops = []
    for _ in range(r.choice([1, 2, 4, 8, 16])):
        k = r.randrange(20)
        n = r.choice([0, 1, 5, 6, 12, 40, r.randint(60, 300)])
        if k == 0:
            ops.append(["ctor-bad", r.randrange(14), r.choice(BADVALUES)])
        elif k <= 3:
            ops.append(["fit-baditem", r.choice(["list", "tuple", "gen", "deque", "seq", "listsub"]), r.choice(BADVALUES), r.randrange(n + 1), n])
        elif k == 4:
            ops.append(["fit-bad", r.choice([b for b in BADVALUES if b not in ("bytes", "list", "dict", "emptytuple", "nparray")])])
        elif k == 5:
            ops.append(["fit-gen", r.randrange(n + 1), n, r.choice(["gen", "seq", "lying+", "lying-", "lying-neg"])])
        elif k <= 7:
            ops.append(["call-bad", r.choice(["step", "quantile", "probability"]), r.choice(BADVALUES)])
        elif k == 8:
            ops.append(["arity", r.choice(["step", "fit", "quantile", "probability", "raw", "excesses", "as_dict"]), r.randrange(3)])
        elif k == 9:
            ops.append(["setattr", r.choice(["q", "level", "anomaly_threshold", "excess_threshold", "Nt", "n", "gamma", "sigma"]), r.randrange(2)])
        elif k <= 11:
            ops.append(["uninit", r.choice(["fit", "step", "quantile", "probability", "raw", "excesses", "as_dict", "attrs", "repr", "init"]),
                        r.choice(["new", "sub", "failed"]), n])
        elif k == 12:
            ops.append(["reinit", r.random() < 0.5])
        elif k <= 14:
            ops.append(["reenter", r.choice(["fit", "step", "quantile", "probability", "q"]), r.choice(["step", "fit", "init", "badinit", "clear", "append",
                        "del", "gc", "queries"]), r.choice(["list", "tuple", "gen"]), r.randrange(6)])
        elif k == 15:
            ops.append(["clone", r.choice(["copy", "deepcopy", "pickle", "reduce"])])
        elif k == 16:
            ops.append(["type", r.randrange(4)])
        elif k == 17:
            ops.append(["churn", r.randint(1, 4)] if r.random() < 0.8 else ["threads", r.choice(["steps", "steps", "init", "fit", "drop"]), r.randint(2, 4)])
        else:
            ops.append(["use", r.randrange(1 << 20), r.choice([r.randint(5, 60)] * 5 + [r.randint(60, 600)] * 4 + [r.randint(600, 6000)])])
    return {"q": q, "kw": kw, "fam": fam, "ops": ops, "r": r.randrange(1 << 30)}


def refused(f, when, *a, **k):
    """the call must raise, properly"""
    o, v = outcome(f, *a, **k)
    need(o == "exc", "%s: returned %r instead of raising", when, v)
    need(not isinstance(v, SystemError), "%s: %r (an error was left pending)", when, v)
    return v


def allowed(f, when, *a, **k):
    """may succeed or raise, but properly"""
    o, v = outcome(f, *a, **k)
    need(not isinstance(v, SystemError), "%s: %r (an error was left pending)", when, v)
    return o, v


def ctor_bad(which, b):
    x = bad(b)
    return [lambda: Spot(), lambda: Spot(x), lambda: Spot(0.001, x), lambda: Spot(0.001, 1), lambda: Spot(0.001, nothing=1), lambda: Spot(q=x),
            lambda: Spot(0.001, q=0.001), lambda: Spot(0.001, level=x), lambda: Spot(0.001, low=x), lambda: Spot(0.001, discard_anomalies=x),
            lambda: Spot(0.001, max_excess=x), lambda: Spot(0.001, low=2 ** 40), lambda: Spot(0.001, max_excess=1.5), lambda: Spot(0.001, low=0.5)][which]


REPEATED = collections.Counter()  # labels of the repetitions of a case
LEAKY = os.environ.get("VP_LEAK") == "1"


def shared(what, n, when):
    """one detector used from several threads at once: every call happens as a whole"""
    t = Spot(0.001, level=0.5, max_excess=50, discard_anomalies=0)
    batch = [float(j * j % 997) / 100 for j in range(4000)]
    t.fit(batch)
    wrong, stop = [], []

    def body(i):
        try:
            if what == "steps":
                for j in range(600):
                    t.step(4.0 + (j + i) % 7)
            elif i == 0:  # the long call
                for _ in range(6):
                    t.fit(batch)
                    if what == "fit":
                        t.excesses()
            else:
                while not stop:
                    if what == "init":
                        t.__init__(0.001, level=0.5, max_excess=50, discard_anomalies=0)
                    elif what == "fit":
                        t.fit(batch[:2000])
                    else:
                        batch.append(1.0), batch.pop()
                    t.as_dict(), t.excesses()
        except RuntimeError:
            pass  # refused: fine
        except Exception as e:  # noqa
            wrong.append(repr(e))
        finally:
            if i == 0:
                stop.append(1)

    th = [threading.Thread(target=body, args=(i,)) for i in range(n)]
    for x in th:
        x.start()
    for x in th:
        x.join()
    need(not wrong, "%s: %s", when, wrong)
    d = t.as_dict()
    if what == "steps":
        need(t.n == 4000 + 600 * n, "%s: %d threads made 600 steps each on a detector with 4000 observations, it has %d", when, n, t.n)
    elif what == "init":
        need(t.n in (0, 4000), "%s: %d observations", when, t.n)
    elif what == "fit":
        need(t.n in (2000, 4000), "%s: %d observations", when, t.n)
    w = t.excesses()
    need(len(w) == min(t.Nt, 50), "%s: %d excesses, %d stored", when, t.Nt, len(w))
    e = d["tail"]["peaks"]["e"]
    need(abs(e - sum(w)) <= 1e-9 * (1 + abs(e)), "%s: the sum of the window is %r, of the values in it %r", when, e, sum(w))


def run_c17(case, lab):
    r = random.Random(case["r"])
    try:
        s = Spot(case["q"], **case["kw"])
    except RuntimeError:
        return False  # not for this property to judge
    train = gen_data(r, 60, case["fam"])
    outcome(s.fit, train)
    nontriv = False
    for k, op in enumerate(case["ops"]):
        when = "operation %d %s" % (k, op)
        kind = op[0]
        before, bex = bytes(s.raw()), s.excesses()
        trc = sys.getrefcount(Spot)
        unchanged = True
        args = []
        if kind == "ctor-bad":
            f = ctor_bad(op[1], op[2])
            refused(f, when)
            f = None
        elif kind in ("fit-baditem", "fit-bad", "fit-gen", "call-bad"):
            if kind == "fit-baditem":
                b = bad(op[2])
                items = [1.0 + 0.5 * j for j in range(op[4])]
                items.insert(op[3], b)
                good = [FloatObj(2.5 * j) for j in range(3)]
                items[:0] = good
                arg = contain(op[1], items, [])
                tracked = [b, good[0], items]
                f = s.fit
            elif kind == "fit-bad":
                arg = bad(op[1])
                tracked = [arg]
                f = s.fit
            elif kind == "fit-gen":
                items = [FloatObj(1.0 + j) for j in range(op[2] + 1)]
                arg = {"gen": lambda: raising_gen(items, op[1]), "seq": lambda: RaisingSeq(items, op[1]), "lying+": lambda: LyingSeq(items, len(items) + 3),
                       "lying-": lambda: LyingSeq(items, 1), "lying-neg": lambda: LyingSeq(items, -1)}[op[3]]()
                tracked = [items, items[0]]
                f = s.fit
            else:
                arg = bad(op[2])
                tracked = [arg]
                f = getattr(s, op[1])
            rarg = sys.getrefcount(arg)
            if kind == "fit-gen" and op[3].startswith("lying"):
                allowed(f, when, arg)  # an iterable whose length lies is still an iterable
                unchanged = False
            else:
                refused(f, when, arg)
            now = sys.getrefcount(arg)
            need(now == rarg, "%s: reference count of the argument went from %d to %d", when, rarg, now)
            arg = f = tracked = None
            nontriv = True
        elif kind == "arity":
            n = {"raw": [1, 2, 3], "excesses": [1, 2, 3], "as_dict": [1, 2, 3]}.get(op[1], [0, 2, 3])[op[2]]
            refused(getattr(s, op[1]), when, *([0.5] * n))
            refused(getattr(s, op[1]), when, x=1)
        elif kind == "setattr":
            if op[2]:
                refused(setattr, when, s, op[1], 0.5)
            else:
                refused(delattr, when, s, op[1])
        elif kind == "uninit":
            if op[2] == "new":
                u = Spot.__new__(Spot)
            elif op[2] == "sub":
                class NoInit(Spot):
                    def __init__(self):
                        pass
                u = NoInit()
            else:
                u = Spot.__new__(Spot)
                refused(u.__init__, when, 2.0)
            m = op[1]
            if m == "fit":
                refused(u.fit, when, [float(j * j % 17) for j in range(op[3])])
            elif m == "step":
                for _ in range(3):
                    refused(u.step, when, 1.0)
            elif m in ("quantile", "probability"):
                o, v = allowed(getattr(u, m), when, 0.5)
                need(o == "exc" or v != v or v in (0.0,) or math.isfinite(v) or math.isinf(v), "%s: %r", when, v)
            elif m in ("raw", "excesses", "as_dict"):
                o, v = allowed(getattr(u, m), when)
                if m == "excesses" and o == "ok":
                    need(v == [], "%s: an uninitialised object has excesses %r", when, v)
            elif m == "attrs":
                for a in ("q", "level", "anomaly_threshold", "excess_threshold", "Nt", "n", "gamma", "sigma"):
                    allowed(getattr, when, u, a)
            elif m == "repr":
                repr(u), str(u), hash(u), u == u
            else:
                Spot.__init__(u, 0.001, max_excess=7)
                u.fit([float(j * j % 17) + 0.1 * j for j in range(40)])
                need(len(u.excesses()) <= 7, "%s: window too large", when)
            u = None
            NoInit = None
            gc.collect() if op[2] == "sub" else None
            nontriv = True
        elif kind == "reinit":
            if op[1]:
                allowed(s.__init__, when, case["q"], **case["kw"])
                unchanged = False
            else:
                refused(s.__init__, when, 5.0)
                refused(s.__init__, when, "x")
        elif kind == "reenter":
            unchanged = False
            lst = []

            def act(what=op[2]):
                if what == "step":
                    outcome(s.step, 3.0)
                elif what == "fit":
                    outcome(s.fit, [float(j % 7) for j in range(30)])
                elif what == "init":
                    outcome(s.__init__, 0.001, max_excess=3)
                elif what == "badinit":
                    outcome(s.__init__, 7.0)
                elif what == "clear":
                    lst.clear()
                elif what == "append":
                    if len(lst) < 400:
                        lst.extend([1.0] * 20)
                elif what == "del":
                    del lst[-1:]
                elif what == "gc":
                    gc.collect(0)
                else:
                    s.quantile(0.1), s.probability(0.1), s.excesses(), s.as_dict(), s.raw()

            a = Acts(1.25, act)
            if op[1] == "fit":
                lst.extend([float(j % 5) + 0.01 * j for j in range(12)])
                lst.insert(op[4], a)
                arg = lst if op[3] == "list" else tuple(lst) if op[3] == "tuple" else (x for x in lst)
                allowed(s.fit, when, arg)
                arg = None
            elif op[1] == "q":
                allowed(s.__init__, when, Acts(0.001, act), max_excess=5)
            else:
                allowed(getattr(s, op[1]), when, a)
            lst.clear()
            a = act = None
            nontriv = True
        elif kind == "clone":
            f = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x)),
                 "reduce": lambda x: x.__reduce_ex__(2)}[op[1]]
            o, v = allowed(f, when, s)
            if o == "ok" and isinstance(v, Spot):  # whatever it is, it must be safe
                allowed(v.fit, when, [float(j * j % 17) + 0.1 * j for j in range(40)])
                allowed(v.step, when, 1.0)
            v = f = None
        elif kind == "type":
            if op[1] == 0:
                T = type("T", (Spot,), {"__slots__": ()})
            elif op[1] == 1:
                T = type("T", (Spot,), {})
            elif op[1] == 2:
                T = type("T", (Spot,), {"__slots__": ("a", "b")})
            else:
                T = type("T", (Spot,), {"__del__": lambda self: self.excesses()})
            t = T(0.001, max_excess=4)
            t.fit([float(j * j % 17) + 0.1 * j for j in range(40)])
            if op[1] == 1:
                t.me = t  # a cycle
            t = T = None
            gc.collect()
        elif kind == "threads":
            if lab is not REPEATED:
                shared(op[1], op[2], when)
                nontriv = True
        elif kind == "churn":
            for _ in range(op[1]):
                t = Spot(0.001, max_excess=9)
                t.fit([float(j * j % 17) + 0.1 * j for j in range(30)])
                t.step(1e9), t.step(1.0)
                t = None
        else:
            rr = random.Random(op[1])
            data = gen_data(rr, op[2], case["fam"])
            arg = data if op[1] & 1 else tuple(data)
            b0, b1, b2 = sys.getrefcount(arg), sys.getrefcount(arg[0]), sys.getrefcount(arg[-1])
            allowed(s.fit, when, arg)
            now = sys.getrefcount(arg), sys.getrefcount(arg[0]), sys.getrefcount(arg[-1])
            need(now == (b0, b1, b2), "%s: reference counts of the batch and its ends went from %r to %r", when, (b0, b1, b2), now)
            arg = None
            far = abs(s.anomaly_threshold) * 3 + 1e3
            vals = gen_data(rr, 20, case["fam"]) + [float("nan"), float("inf"), -float("inf"), far, -far, s.excess_threshold, s.anomaly_threshold,
                                                    (s.excess_threshold + s.anomaly_threshold) / 2]
            for j, x in enumerate(vals):
                w = x if j % 3 else FloatObj(x)
                b0 = sys.getrefcount(w)
                v = s.step(w)
                need(v in (0, 1, 2) or (v < 0 and x != x), "%s: step(%r) is %r", when, x, v)
                s.quantile(w), s.probability(w)
                now = sys.getrefcount(w)
                need(now == b0, "%s: the reference count of %r went from %d to %d", when, x, b0, now)
            w = x = vals = None
            s.as_dict(), s.raw(), s.excesses(), s.quantile(0.001), s.probability(1.0)
            unchanged = False
            nontriv = True
        lab[kind] += 1
        if unchanged:
            need(bytes(s.raw()) == before and s.excesses() == bex, "%s: the detector changed", when)
        if kind not in ("uninit", "type", "clone"):
            now = sys.getrefcount(Spot)
            need(now == trc, "%s: the reference count of the type went from %d to %d", when, trc, now)
    # still usable
    o, v = outcome(s.__init__, 0.01, level=0.8, max_excess=20)
    need(o == "ok", "the detector cannot be initialised again: %r", v)
    o, v = outcome(s.fit, [float(j * j % 37) + 0.1 * j for j in range(60)])
    need(o == "ok", "the detector cannot be fitted any more: %r", v)
    return nontriv


class MallInfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


def in_use():
    gc.collect()
    m = mallinfo2()
    return m.uordblks + m.hblkhd


if LEAKY:
    mallinfo2 = ctypes.CDLL(None).mallinfo2
    mallinfo2.restype = MallInfo


def leak_c17(case, lab):
    """the whole case again and again: the memory in use must not grow"""
    body = lambda n: [run_c17(case, REPEATED) for _ in range(n)] and None
    body(3)
    m, g = in_use(), []
    for _ in range(8):  # a leak grows in every window; interpreter noise does not
        body(10)
        m2 = in_use()
        g.append(m2 - m)
        m = m2
        if g[-1] < 10 * 16:
            break
    need(g[-1] < 10 * 16, "memory in use keeps growing: %s bytes over successive windows of 10 repetitions of the same calls", g)
    lab["leak phases"] += 1


PROPS = {"C16": (gen_c16, run_c16), "C17": (gen_c17, run_c17)}


def check(prop, case, lab):
    nt = PROPS[prop][1](case, lab)
    if prop == "C17" and LEAKY:
        leak_c17(case, lab)
    return nt


def main():
    mode, prop = sys.argv[1:3]
    gen, _ = PROPS[prop]
    lab = collections.Counter()
    if mode == "exec":
        case = json.load(open(sys.argv[3]))
        try:
            check(prop, case, lab)
        except Bad as e:
            print("FAILED: %s" % e)
            return 1
        return 0
    seed, w, nw, n, out = int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]), sys.argv[7]
    done = nontriv = 0
    distinct, samples = set(), []
    for i in range(n):
        r = random.Random("%d/%d/%d/%s" % (seed, w, i, prop))
        case = gen(r)
        txt = json.dumps(case)
        with open(out + ".case", "w") as f:
            f.write(txt)
        try:
            nt = check(prop, case, lab)
        except Bad as e:
            print("FAILED: %s" % e)
            return 1
        done += 1
        if nt:
            distinct.add(hash(txt))
            if len(samples) < 2:
                samples.append(txt[:600])
    with open(out, "w") as f:
        json.dump(dict(done=done, distinct=len(distinct), labels=lab, samples=samples), f)
    return 0


if __name__ == "__main__":
    sys.exit(main())
