"""Bounded-exhaustive check of the Python binding against the C++ library.

parts: forms:FN       every argument form x dtype x casting x output dtype x flags of one function
       errors         every function with one argument at a time replaced by an unacceptable one
       hist:KIND:N    every sequence of up to N method calls on one Clipper or TrackedClipper
       winding        every loop over an alphabet of extreme coordinates
       map            every PointMap over small jagged arrays, and its index_map forms
       leak           every kind of call, repeated: references and memory come back
The current case is kept in shared memory by a child process, so that a crash
or a hang is reported with the case it happened on.
"""
import ctypes, gc, itertools, json, mmap, os, signal, struct, sys, time, warnings

ARGS = dict(zip(sys.argv[1::2], sys.argv[2::2]))
DIR = ARGS["--build"]
SHARD, NSHARDS = int(ARGS.get("--shard", 0)), int(ARGS.get("--nshards", 1))
TIER, BUDGET, PART = ARGS.get("--tier", "quick"), float(ARGS.get("--budget", 600)), ARGS["--part"]
T0 = time.time()
SHM = mmap.mmap(-1, 1 << 16)


# ------------------------------------------------------------------ reporting
counters, samples, vkeys, nviol = {}, [], {}, 0


def count(k, n=1):
    counters[k] = counters.get(k, 0) + n


def violation(key, case, what):
    global nviol
    nviol += 1
    vkeys[key] = vkeys.get(key, 0) + 1
    if vkeys[key] <= 5:
        print("V\t" + json.dumps(dict(key=key, case=case[:1500], what=what[:1500])), flush=True)


gate_n = 0
truncated = False


def gate():
    """one counter for the whole enumeration; true if this shard runs the case"""
    global gate_n, truncated
    i = (gate_n * 0x9E3779B97F4A7C15) & (2**64 - 1)
    gate_n += 1
    if (gate_n & 255) == 0 and time.time() - T0 > BUDGET:
        truncated = True
    return not truncated and (i >> 33) % NSHARDS == SHARD


step_n = 0


def begin(text):
    global step_n
    step_n += 1
    b = text.encode("utf-8", "replace")[:60000]
    SHM[0:12] = struct.pack("<QI", step_n, len(b))
    SHM[12:12 + len(b)] = b


def current():
    n, l = struct.unpack("<QI", SHM[0:12])
    return n, bytes(SHM[12:12 + l]).decode("utf-8", "replace")


def supervise():
    pid = os.fork()
    if pid == 0:
        return
    last, since = None, 0.0
    hz = os.sysconf("SC_CLK_TCK")
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        n, text = current()
        try:
            f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
            cpu = (int(f[11]) + int(f[12])) / hz
        except OSError:
            cpu = 0.0
        if n != last:
            last, since = n, cpu
        elif cpu - since > 40:
            violation("hang", text, "no result after 40 s of processor time")
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            os._exit(3)
        time.sleep(0.05)
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL, signal.SIGTRAP):
            violation("crash-%d" % sig, current()[1], "the interpreter died with signal %d" % sig)
            os._exit(3)
        os._exit(4)
    os._exit(os.WEXITSTATUS(st))


if PART == "leak" and os.environ.get("PYTHONMALLOC") != "malloc":
    os.environ["PYTHONMALLOC"] = "malloc"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)

supervise()
os.environ.update(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
import numpy as np  # noqa: E402
sys.path.insert(0, DIR)
import polyops  # noqa: E402
assert os.path.dirname(polyops.__file__).startswith(DIR)
warnings.simplefilter("ignore")
I64 = np.dtype(np.int64)


# ------------------------------------------------------------------ reference
lib = ctypes.CDLL(os.path.join(DIR, "libpyref.so"))
lib.vp_ref.restype = ctypes.c_long
lib.vp_ref.argtypes = [ctypes.c_int] * 3 + [ctypes.c_long] + [ctypes.c_void_p] * 4 + [ctypes.c_long]
lib.vp_winding.argtypes = [ctypes.c_long] + [ctypes.c_void_p] * 3
CAP = 1 << 16
buf = np.zeros(CAP, np.int64)
memo = {}


def ref(tree, tracked, op, items):
    """items: tuples ("loop", set, points) | ("offset", set, points, magnitude, step, closed) | ("orig", n)

    gives ((points, origins, children), ...)"""
    k = (tree, tracked, op, items)
    r = memo.get(k)
    if r is not None:
        return r
    d = np.zeros((max(1, len(items)), 6), np.int64)
    mag = np.zeros(max(1, len(items)))
    pts = []
    for i, it in enumerate(items):
        if it[0] == "orig":
            d[i] = (2, 0, 0, 0, 0, it[1])
        elif it[0] == "loop":
            d[i] = (0, it[1], len(it[2]), 0, 0, 0)
            pts += it[2]
        else:
            d[i] = (1, it[1], len(it[2]), it[4], bool(it[5]), 0)
            mag[i] = it[3]
            pts += it[2]
    pts = np.array(pts or [(0, 0)], np.int64)
    n = lib.vp_ref(int(tree), int(tracked), int(op), len(items), d.ctypes.data, mag.ctypes.data, pts.ctypes.data, buf.ctypes.data, CAP)
    assert 0 <= n <= CAP
    it = iter(buf[:n].tolist())

    def loops():
        out = []
        for _ in range(next(it)):
            p, o = [], []
            for _ in range(next(it)):
                p.append((next(it), next(it)))
                o.append(tuple(next(it) for _ in range(next(it))))
            out.append((tuple(p), tuple(o), loops_() if tree else loops_()))
        return tuple(out)
    loops_ = loops
    r = loops()
    if len(memo) > 200000:
        memo.clear()
    memo[k] = r
    return r


def ref_winding(points):
    pts = np.array(points or [(0, 0)], np.int64)
    hi, lo = ctypes.c_int64(), ctypes.c_uint64()
    lib.vp_winding(len(points), pts.ctypes.data, ctypes.addressof(hi), ctypes.addressof(lo))
    return (hi.value << 64) + lo.value


# ----------------------------------------------------------------- comparison
def same_dtype(a, b):
    return a == b or a.newbyteorder("=") == b.newbyteorder("=")


def array_problem(a, pts, dtype):
    if type(a) is not np.ndarray:
        return "a %s in place of an array" % type(a).__name__
    if a.shape != (len(pts), 2):
        return "an array of shape %s in place of (%d,2)" % (a.shape, len(pts))
    if not same_dtype(a.dtype, dtype):
        return "an array of type %s in place of %s" % (a.dtype, dtype)
    want = np.array(pts, np.int64).reshape((-1, 2))
    if dtype != I64:
        want = want.astype(dtype, casting="unsafe")
    if a.tolist() != want.tolist():
        return "points %s in place of %s" % (a.tolist(), want.tolist())
    return None


def map_problem(m, orig):
    flat = [i for o in orig for i in o]
    offs = [0]
    for o in orig:
        offs.append(offs[-1] + len(o))
    if m.offsets.dtype != np.intp or m.offsets.tolist() != offs:
        return "originals.offsets %s in place of %s" % (m.offsets.tolist(), offs)
    if m.indices.dtype != np.intp or m.indices.tolist() != flat:
        return "originals.indices %s in place of %s" % (m.indices.tolist(), flat)
    if len(m) != len(orig):
        return "a map of length %d for %d points" % (len(m), len(orig))
    for i, o in enumerate(orig):
        if m[i].tolist() != list(o):
            return "originals[%d] is %s in place of %s" % (i, m[i].tolist(), o)
    want = [i for i, o in enumerate(orig) for _ in o]
    if m.index_map().tolist() != want:
        return "index_map() gives %s in place of %s" % (m.index_map().tolist(), want)
    return None


def problem(got, want, tree, tracked, dtype, depth=0):
    if type(got) is not tuple:
        return "a %s in place of a tuple" % type(got).__name__
    if len(got) != len(want):
        return "%d loops in place of %d%s" % (len(got), len(want), " inner" if depth else "")
    for g, (pts, orig, kids) in zip(got, want):
        fields = ("loop",) + (("children",) if tree else ()) + (("originals",) if tracked else ())
        if tree or tracked:
            if getattr(g, "_fields", None) != fields:
                return "an item with the fields %s in place of %s" % (getattr(g, "_fields", type(g).__name__), fields)
            p = array_problem(g.loop, pts, dtype)
        else:
            p = array_problem(g, pts, dtype)
        if not p and tracked:
            p = map_problem(g.originals, orig)
        if not p and tree:
            p = problem(g.children, kids, tree, tracked, dtype, depth + 1)
        if p:
            return p
    return None


# ---------------------------------------------------------------------- forms
DTYPES = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f2", "f4", "f8", "g", "?", ">i2", ">i4", ">i8", ">u4", ">f8", "q", "Q", "l", "L", "c16", "O", "U5", "S5"]


class Arr:
    def __init__(self, a):
        self.a = a

    def __array__(self, dtype=None, copy=None):
        return self.a if dtype is None else self.a.astype(dtype)


class Seq:
    """a sequence by the old protocol"""
    def __init__(self, a):
        self.a = a

    def __getitem__(self, i):
        return self.a[i]

    def __len__(self):
        return len(self.a)


def unaligned(a):
    if a.dtype.hasobject:
        return a.copy()
    raw = np.zeros(a.nbytes + 1, np.uint8)
    r = raw[1:].view(a.dtype).reshape(a.shape)
    r[...] = a
    return r


def field(a):
    s = np.zeros(len(a), [("k", "i1"), ("p", a.dtype, (2,)), ("z", "i2")])
    s["p"] = a
    return s["p"]


def inside(a, rows, cols, r0, c0):
    big = np.zeros((max(1, len(a)) * rows + 3, 2 * cols + 3), a.dtype)
    big[...] = np.array(77).astype(a.dtype) if a.dtype.kind != "b" else False
    v = big[r0:r0 + len(a) * rows:rows, c0:c0 + 2 * cols:cols]
    v[...] = a
    return v


def negative(a, r, c):
    s = (slice(None, None, -1 if r else 1), slice(None, None, -1 if c else 1))
    return a[s].copy()[s]


def frozen(a):
    a = a.copy()
    a.flags.writeable = False
    return a


def squeeze(a):
    """the smallest strides that still show every element: rows or columns that repeat share memory"""
    if not len(a):
        return a
    row = all((a[i] == a[0]).all() for i in range(len(a)))
    col = bool((a[:, :1] == a).all())
    if row and col:
        return np.broadcast_to(a[0, 0], a.shape)
    if row:
        return np.broadcast_to(a[0], a.shape)
    if col:
        return np.broadcast_to(a[:, :1], a.shape)
    return a


def matrix(a):
    return a.view(np.matrix)


ARRAY_FORMS = {
    "C": lambda a: a.copy(), "F": lambda a: np.asfortranarray(a), "T": lambda a: np.ascontiguousarray(a.T).T,
    "every other row": lambda a: inside(a, 2, 1, 1, 0), "column slice": lambda a: inside(a, 1, 1, 0, 1), "every third column": lambda a: inside(a, 1, 3, 0, 0),
    "rows and columns": lambda a: inside(a, 3, 2, 2, 1), "rows backwards": lambda a: negative(a, 1, 0), "columns backwards": lambda a: negative(a, 0, 1),
    "both backwards": lambda a: negative(a, 1, 1), "F backwards": lambda a: np.asfortranarray(a[::-1])[::-1], "unaligned": unaligned, "field": field, "read-only": frozen,
    "broadcast": squeeze, "matrix": matrix, "__array__": Arr, "sequence of rows": lambda a: [r for r in a],
}
LIST_FORMS = {
    "lists": lambda a: a.tolist(), "tuples": lambda a: tuple(map(tuple, a.tolist())), "list of tuples": lambda a: [tuple(r) for r in a.tolist()],
    "scalars": lambda a: [[x, y] for x, y in a], "old sequence": lambda a: Seq([Seq(r) for r in a.tolist()]), "lists of 0-d": lambda a: [[np.array(x), np.array(y)] for x, y in a],
}
CONTAINERS = {
    "list": list, "tuple": tuple, "generator": lambda l: (x for x in l), "iter": iter, "dict values": lambda l: dict(enumerate(l)).values(), "object array": None, "3-d": None, "old sequence": Seq,
}
CASTINGS = ["no", "equiv", "safe", "same_kind", "unsafe", "default"]
OUT_DTYPES = [None, "i8", "i4", "f8", "O", ">i2", "u1", "?", "U6", "default"]
OUT_T = ["i2", "f4", "c8", np.float64, int, float, "V8", "S4", "g", "m8[s]", np.dtype("i4")]

A = ((0, 0), (100, 0), (100, 90), (0, 90))
LOOPSETS = {
    "square": (A,),
    "bow": (((0, 0), (0, 0), (90, 90), (90, 0), (0, 80), (0, 80)),),
    "hole": (((0, 0), (100, 0), (100, 100), (0, 100)), ((20, 20), (20, 80), (80, 80), (80, 20)), ((40, 40), (60, 40), (60, 61), (40, 60)), ((110, 5), (125, 5), (120, 30))),
    "crossing": (((0, 40), (100, 45), (97, 60), (3, 55)), ((40, 0), (61, 2), (55, 100), (44, 97)), ((7, 7), (93, 93), (90, 99), (2, 11))),
    "points": (((7, 7), (7, 7), (7, 7), (7, 7)), ((5, 9), (5, 9), (5, 9)), ((3, 3), (40, 40), (90, 90)), A, ((20, 20),), ((30, 30), (80, 80))),
    "empty": (),
    "nothing": ((),),
    "some nothing": ((), A, ()),
}
CLIPS = {"square": (((50, 50), (120, 50), (120, 120), (50, 120)),), "hole": (((30, 30), (30, 70), (110, 70), (110, 30)),), "empty": (A,), "some nothing": ()}


def values(loop, dt):
    a = np.array(loop, np.int64).reshape((-1, 2))
    if dt.kind == "b":
        return a > 50
    if dt.kind == "f":
        return (a + 0.25).astype(dt)
    return a.astype(dt)


def expect_loop(obj, casting):
    """the array numpy makes of an object, its points, and whether it is acceptable"""
    ar = np.asanyarray(obj)
    ok = ar.ndim == 2 and ar.shape[1] == 2 and (ar.size == 0 or np.can_cast(ar.dtype, I64, casting))
    return ar.dtype, tuple(map(tuple, ar.astype(np.int64, casting="unsafe").tolist())) if ok else None, ok


def promote(dts):
    r = None
    for d in dts:
        r = d if r is None else np.promote_types(d, r)
    return r


def judge(name, call, want, tree, tracked, dtype):
    """want: None when a TypeError is due"""
    count("evals")
    begin(name)
    try:
        got = call()
    except TypeError as e:
        if want is not None:
            violation("raises", name, "TypeError: %s" % e)
        else:
            count("refused")
        return
    except Exception as e:  # noqa: BLE001
        violation("raises", name, "%s: %s" % (type(e).__name__, e))
        return
    if want is None:
        violation("accepted", name, "no TypeError; gives %.300r" % (got,))
        return
    if want:
        count("nontrivial")
    p = problem(got, want, tree, tracked, dtype)
    if p:
        violation("differs", name, p)
    if gate_n % 1009 == 0 and len(samples) < 3:
        samples.append(name)


def run_forms(fn):
    forms = {**ARRAY_FORMS, **LIST_FORMS}
    thorough = TIER == "thorough"

    def kw(casting, dtype, tree, track):
        k = {}
        if casting != "default":
            k["casting"] = casting
        if dtype != "default":
            k["dtype"] = dtype
        if tree is not None:
            k["tree_out"] = tree
        if track is not None:
            k["track_points"] = track
        return k

    def one(loops, clips, casting, dtype, tree, track, name, container, params=(10.5, 4, True)):
        cast = casting if casting != "default" else "same_kind"
        exp = [expect_loop(o, cast) for o in loops]
        expc = [expect_loop(o, cast) for o in clips]
        ok = all(e[2] for e in exp + expc)
        calc = promote([e[0] for e in exp + expc])
        out = calc if dtype in (None, "default") else np.dtype(dtype)
        k = kw(casting, dtype, tree, track)
        t, tr = bool(tree), bool(track)
        if fn == "offset":
            items = tuple(("offset", 0, e[1]) + params for e in exp)
            ops = [("offset", 0)]
        else:
            items = tuple(("loop", 0, e[1]) for e in exp) + tuple(("loop", 1, e[1]) for e in expc)
            ops = [(fn, {"union": 0, "normalize": 4}[fn])] if fn != "boolean_op" else [(fn, o) for o in range(5)]
        items = tuple(i for i in items if i[2])
        before = [np.asanyarray(o).copy() for o in list(loops) + list(clips)]
        for f, op in ops:
            want = ref(t, tr, op, items) if ok else None
            n = "%s(%s %s) %s" % (f, name, "" if f != "boolean_op" else polyops.BoolOp(op).name, k)
            if f == "boolean_op":
                judge(n, lambda: polyops.boolean_op(container(loops), container(clips), polyops.BoolOp(op), **k), want, t, tr, out)
            elif f == "offset":
                judge(n + str(params), lambda: polyops.offset(container(loops), *params, **k), want, t, tr, out)
            else:
                judge(n, lambda: getattr(polyops, f)(container(loops), **k), want, t, tr, out)
        for o, b in zip(list(loops) + list(clips), before):
            a = np.asanyarray(o)
            if a.tolist() != b.tolist():
                violation("input changed", name, "%s becomes %s" % (b.tolist(), a.tolist()))

    flags = [(False, False), (True, False), (False, True), (True, True)]
    # every form and element type, with every casting rule
    for ls, loops in LOOPSETS.items():
        clips = CLIPS.get(ls, ()) if fn == "boolean_op" else ()
        for dn in DTYPES:
            dt = np.dtype(dn)
            for fname, form in forms.items():
                if fname in LIST_FORMS and dn not in ("i8", "f8", "?", "O", "U5"):
                    continue
                for casting in CASTINGS:
                    if not thorough and fn != "union" and (ls in ("bow", "empty", "nothing") or casting in ("no", "equiv")):
                        continue
                    for tree, track in (flags if thorough or fname in ("C", "broadcast", "lists") else flags[::3]):
                        if gate():
                            one([form(values(l, dt)) for l in loops], [form(values(l, dt)) for l in clips], casting, "default", tree, track, "%s, %s of %s" % (ls, fname, dn), list)
    # every way to hand over the loops
    for ls, loops in LOOPSETS.items():
        clips = CLIPS.get(ls, ()) if fn == "boolean_op" else ()
        for cname, c in CONTAINERS.items():
            for dn in ("i8", "i2", "f8"):
                for tree, track in flags + [(None, None)]:
                    if cname == "3-d":
                        if len({len(l) for l in loops}) > 1 or len({len(l) for l in clips}) > 1:
                            continue

                        def c(l):
                            return np.array(l) if len(l) else np.zeros((0, 4, 2))
                    elif cname == "object array":
                        def c(l):
                            a = np.empty(len(l), object)
                            for i, x in enumerate(l):
                                a[i] = x
                            return a
                    if gate():
                        one([values(l, np.dtype(dn)) for l in loops], [values(l, np.dtype(dn)) for l in clips], "unsafe", "default", tree, track, "%s, in a %s, %s" % (ls, cname, dn), c)
    # every type of the result, and mixed element types
    for ls, loops in LOOPSETS.items():
        clips = CLIPS.get(ls, ()) if fn == "boolean_op" else ()
        for dn in ("i8", "i2", "u8", "f4", "O", "?"):
            for dtype in OUT_DTYPES + OUT_T:
                for tree, track in flags:
                    if gate():
                        one([values(l, np.dtype(dn)) for l in loops], [values(l, np.dtype(dn)) for l in clips], "unsafe", dtype, tree, track, "%s of %s" % (ls, dn), list)
        for d1, d2 in itertools.product(["i1", "u1", "i8", "u8", "f4", "f8", "O", ">i2", "?"], repeat=2):
            for track in (False, True):
                if gate():
                    dts = itertools.cycle([np.dtype(d1), np.dtype(d2)])
                    one([values(l, next(dts)) for l in loops], [values(l, next(dts)) for l in clips], "unsafe", "default", False, track, "%s of %s and %s" % (ls, d1, d2), list)
    if fn == "offset":
        for ls, loops in LOOPSETS.items():
            for m in (-30, -4.75, 0, 0.0, 3, 12.5, np.float32(40), 200, True):
                for step in (1, 2, np.int64(7), 50, 1000000):
                    for closed in (True, False, 0, 1, None, "x"):
                        for tree, track in flags:
                            if gate():
                                one([values(l, I64) for l in loops], [], "default", "default", tree, track, ls, list, (m, step, closed) if not isinstance(m, np.float32) else (float(m), step, closed))
                        if gate():
                            # by keyword
                            exp = tuple(("offset", 0, tuple(l), float(m), int(step), bool(closed)) for l in loops if l)
                            judge("offset(%s, magnitude=%s, arc_step_size=%s, closed=%s)" % (ls, m, step, closed),
                                  lambda: polyops.offset(loops=[values(l, I64) for l in loops], magnitude=m, arc_step_size=step, closed=closed), ref(False, False, 0, exp), False, False, I64)


# --------------------------------------------------------------------- errors
class Boom(Exception):
    pass


def boom(l):
    yield from l
    raise Boom


def run_errors():
    S, C = [A], [CLIPS["square"][0]]
    bad_loop = {"one number": 3, "flat": [1, 2, 3, 4], "no points": [], "three columns": [[1, 2, 3]], "ragged": [[1, 2], [3]], "one column": [[1], [2]], "none": None, "text": "ab", "3-d": [A, A], "0-d": np.array(5),
                "complex": np.array(A) * 1j, "float": np.array(A) / 2, "dict": {}, "strings": [["a", "b"]], "0x2x1": np.zeros((0, 2, 1)), "2x0": np.zeros((2, 0)), "0": np.zeros(0)}
    bad_loops = {"number": 3, "none": None, "type": int}
    bad_loops.update({"[%s]" % k: [v] for k, v in bad_loop.items()})
    bad_loops.update({"[ok,%s]" % k: [A, v] for k, v in bad_loop.items()})
    bad_cast = ["foo", 17, "", [], "SAFE"]
    bad_dtype = ["nonsense", 3.5, [3], "(2,)i8", np.dtype((np.int64, (2, 2)))]
    bad_op = [5, -1, 99, "union", None, 2**40, [], np.int64(77)]
    bad_set = [2, -1, 99, "subject", None, 2**40, [], np.int8(3)]
    bad_step = [0, -1, 2**31, 2**70, "x", None, -2**31]
    bad_mag = ["x", None, [], 1j]
    ANY = Exception

    def call_cases():
        def combos(base, bads, f):
            for k, vs in bads.items():
                for v in vs:
                    nm, v = v if isinstance(v, tuple) else (repr(v), v)
                    yield "%s=%s" % (k, nm), f, dict(base, **{k: v})
        bl = [(k, v) for k, v in bad_loops.items()]
        b1 = [(k, v) for k, v in bad_loop.items()]
        opts = dict(casting=bad_cast, dtype=bad_dtype)
        for tree in (False, True):
            for track in (False, True):
                fl = dict(tree_out=tree, track_points=track)
                for f in ("union", "normalize"):
                    yield from ((f + "(" + n + ")", getattr(polyops, f_), k) for n, f_, k in combos(dict(loops=S, **fl), dict(opts, loops=bl), f))
                yield from (("boolean_op(" + n + ")", polyops.boolean_op, k) for n, _, k in combos(dict(subject=S, clip=C, op=polyops.BoolOp.union, **fl), dict(opts, subject=bl, clip=bl, op=bad_op), 0))
                yield from (("offset(" + n + ")", polyops.offset, k) for n, _, k in combos(dict(loops=S, magnitude=3, arc_step_size=2, **fl), dict(opts, loops=bl, magnitude=bad_mag, arc_step_size=bad_step), 0))
        yield from (("winding_dir(" + n + ")", polyops.winding_dir, k) for n, _, k in combos(dict(loop=A), dict(casting=bad_cast, loop=b1), 0))

    for n, f, k in call_cases():
        if not gate():
            continue
        count("evals")
        begin(n)
        try:
            f(**k)
        except ANY:
            count("refused")
        else:
            violation("accepted", n, "no exception")
    # an exception of the caller's own iterable arrives
    for f, a in (("union", ()), ("normalize", ()), ("offset", (3, 2))):
        for track in (False, True):
            if gate():
                count("evals")
                begin(f + "(failing iterable)")
                try:
                    getattr(polyops, f)(boom(S), *a, track_points=track)
                    violation("accepted", f + "(failing iterable)", "no exception")
                except Boom:
                    count("refused")
    # methods of the classes: refused, and the object carries on as if nothing had been asked
    for cls, tracked in ((polyops.Clipper, False), (polyops.TrackedClipper, True)):
        methods = []
        for m, extra in (("add_loop", 0), ("add_loops", 0), ("add_offset", 1), ("add_offsets", 1)):
            many = m.endswith("s")
            for suf in ("", "_subject", "_clip"):
                base = {"loops" if many else "loop": [A] if many else A}
                if not suf:
                    base["bset"] = polyops.BoolSet.clip
                if extra:
                    base.update(magnitude=3.0, arc_step_size=2)
                bads = {"casting": bad_cast, "loops" if many else "loop": [(k, v) for k, v in (bad_loops if many else bad_loop).items() if not k.startswith("[ok")]}
                if not suf:
                    bads["bset"] = bad_set
                if extra:
                    bads.update(magnitude=bad_mag, arc_step_size=bad_step)
                methods.append((m + suf, base, bads))
        methods.append(("execute", dict(op=polyops.BoolOp.union), dict(op=bad_op, dtype=bad_dtype)))
        for m, base, bads in methods:
            for k, vs in bads.items():
                for v in vs:
                    nm, v = v if isinstance(v, tuple) else (repr(v), v)
                    for first in (False, True):
                        if not gate():
                            continue
                        if m == "execute" and not first:
                            continue  # with nothing added the answer is () whatever is asked
                        n = "%s.%s(%s=%s)%s" % (cls.__name__, m, k, nm, " after a loop" if first else "")
                        count("evals")
                        begin(n)
                        c = cls()
                        items = []
                        if first:
                            c.add_loop_subject(A)
                            items.append(("loop", 0, A))
                        try:
                            getattr(c, m)(**dict(base, **{k: v}))
                            violation("accepted", n, "no exception")
                            continue
                        except ANY:
                            count("refused")
                        c.add_loop(C[0], polyops.BoolSet.clip)
                        items.append(("loop", 1, C[0]))
                        for op in (2, 1):
                            p = problem(c.execute(polyops.BoolOp(op), tree_out=True), ref(True, tracked, op, tuple(items)), True, tracked, I64)
                            if p:
                                violation("unusable", n + " then an operation", p)
                            items = [("loop", 0, A), ("loop", 1, C[0])]
                            c.add_loop_subject(A)
                            c.add_loop_clip(C[0])


# ------------------------------------------------------------------ histories
def run_hist(kind, depth):
    tracked = kind == "tracked"
    cls = polyops.TrackedClipper if tracked else polyops.Clipper
    D = polyops.BoolOp
    B = CLIPS["square"][0]
    big = ((1000, 1000), (1100, 1000), (1100, 1100))
    f4 = np.array(B, "f4")
    i2 = np.array(A, "i2")
    hole = LOOPSETS["hole"]
    Z = np.zeros((0, 2), "i2")
    dt = np.dtype

    # a model state: (items, dtype or None); an action gives the states it may lead to
    def add(items, d):
        def m(st):
            nd = st[1]
            for x in d:
                nd = x if nd is None else np.promote_types(x, nd)
            return [(st[0] + tuple(i for i in items if i[0] == "orig" or i[2]), nd)]
        return m

    def partial(items, d):
        """a failing call may have added the loops before the one that failed, or none"""
        def m(st):
            return [st] + [add(items[:k], d[:k])(st)[0] for k in range(1, len(items) + 1)]
        return m

    def L(s, p):
        return ("loop", s, tuple(map(tuple, p)))

    def O(s, p, m, st, c=True):
        return ("offset", s, tuple(map(tuple, p)), float(m), st, c)

    acts = [
        ("add_loop(A)", lambda c: c.add_loop(i2, polyops.BoolSet.subject), add((L(0, A),), [dt("i2")]), False),
        ("add_loop_clip(B)", lambda c: c.add_loop_clip(f4, casting="unsafe"), add((L(1, B),), [dt("f4")]), False),
        ("add_loops(hole)", lambda c: c.add_loops((l for l in hole), 0), add(tuple(L(0, h) for h in hole), [I64] * 4), False),
        ("add_loops_clip(A,bad)", lambda c: c.add_loops_clip([i2, [1, 2]]), partial((L(1, A),), [dt("i2")]), True),
        ("add_loop_subject(float)", lambda c: c.add_loop_subject(f4), add((), []), True),
        ("add_offset(B)", lambda c: c.add_offset(B, 0, 12, 5, True), add((O(0, B, 12, 5),), [I64]), False),
        ("add_offsets_clip(open)", lambda c: c.add_offsets_clip([big[:2], Z, A[:3]], 8.5, 100, False), add((O(1, big[:2], 8.5, 100, False), O(1, A[:3], 8.5, 100, False)), [I64, dt("i2"), I64]), False),
        ("add_offsets_subject(A, failing)", lambda c: c.add_offsets_subject(boom([A, B]), 5, 5), partial((O(0, A, 5, 5), O(0, B, 5, 5)), [I64, I64]), True),
        ("add_offsets(bad set)", lambda c: c.add_offsets([A], 2, 5, 5), add((), []), True),
        ("add_offset_subject(step 0)", lambda c: c.add_offset_subject(A, 5, 0), add((), []), True),
        ("reset", lambda c: c.reset(), lambda st: [((), None)], False),
        ("execute(bad op)", lambda c: c.execute(7), None, None),
        ("execute(bad dtype)", lambda c: c.execute(D.union, dtype="nonsense"), add((), []), True),
    ]
    if tracked:
        def setn(c):
            c.next_orig_i = 40
        acts.append(("next_orig_i=40", setn, lambda st: [(st[0] + (("orig", 40),), st[1])], False))
    execs = [("execute(union)", dict(op=D.union), 0, False, None), ("execute(difference,tree)", dict(op=D.difference, tree_out=True), 3, True, None),
             ("execute(xor,f8)", dict(op=D.xor, dtype="f8"), 2, False, dt("f8"))]
    if TIER == "thorough":
        execs.append(("execute(normalize,tree,i4)", dict(op=4, dtype=np.int32, tree_out=True), 4, True, dt("i4")))
    n = len(acts) + len(execs)

    def orig_of(st):
        r = 0
        for i in st[0]:
            r = i[1] if i[0] == "orig" else r + len(i[2])
        return r

    def play(seq):
        name = kind + ": " + " ".join((acts[i] if i < len(acts) else execs[i - len(acts)])[0] for i in seq)
        begin(name)
        c = cls()
        states = [((), None)]
        kept = []
        for i in seq:
            count("transitions")
            if i < len(acts):
                nm, f, m, fails = acts[i]
                try:
                    f(c)
                    raised = False
                except Exception as e:  # noqa: BLE001
                    raised = True
                    if fails is False:
                        return violation("raises", name, "%s: %s: %s" % (nm, type(e).__name__, e))
                if fails and not raised:
                    return violation("accepted", name, nm + ": no exception")
                if m is None:  # refused unless there is nothing to work on
                    if not raised and not any(s[1] is None for s in states):
                        return violation("accepted", name, nm + ": no exception")
                    continue
                new = []
                for s in states:
                    for t in m(s):
                        if t not in new:
                            new.append(t)
                states = new
            else:
                nm, kwargs, op, tree, d = execs[i - len(acts)]
                try:
                    got = c.execute(**kwargs)
                except Exception as e:  # noqa: BLE001
                    return violation("raises", name, "%s: %s: %s" % (nm, type(e).__name__, e))
                fits, p = [], None
                for s in states:
                    want = ref(tree, tracked, op, s[0]) if s[1] is not None else ()
                    q = problem(got, want, tree, tracked, d or s[1] or I64)
                    if q:
                        p = p or q
                    else:
                        fits.append((s, want))
                if not fits:
                    return violation("differs", name, "%s: %s" % (nm, p))
                if fits[0][1]:
                    count("nontrivial")
                kept.append((got, fits[0][1], tree, d or fits[0][0][1] or I64))
                # with nothing to work on, the next number may stay as it was set
                nxt = [((), None)]
                for s, _ in fits:
                    if s[1] is None and s not in nxt:
                        nxt.append(s)
                states = nxt
            if tracked:
                o = c.next_orig_i
                if not any(orig_of(s) == o for s in states):
                    return violation("next_orig_i", name, "%d after %s, in place of %s" % (o, nm, sorted({orig_of(s) for s in states})))
                states = [s for s in states if orig_of(s) == o]
        for got, want, tree, d in kept:
            p = problem(got, want, tree, tracked, d)
            if p:
                return violation("result changed", name, p)

    for k in range(1, depth + 1):
        for seq in itertools.product(range(n), repeat=k):
            if k > 1 and k < depth and seq[-1] < len(acts):
                continue  # a prefix of a longer one
            if gate():
                count("evals")
                count("histories")
                play(seq + ((len(acts) + 1,) if seq[-1] < len(acts) else ()))
                if gate_n % 5003 == 0 and len(samples) < 3:
                    samples.append(current()[1])


# -------------------------------------------------------------------- methods
def run_methods():
    """every pair of calls of the methods that add, in every form, and every execution"""
    D = polyops.BoolOp
    I = np.dtype("i2")
    F = np.dtype("f4")
    B = CLIPS["square"][0]
    first = [(tuple((x * 3, y * 3) for x, y in A), A), (B, tuple((x * 2 - 7, y * 2 + 5) for x, y in B))]

    def forms(loops):
        out = []
        for many in (False, True):
            ls = loops if many else loops[:1]
            for f in (False, True):
                a = [np.array(l, F if f else I) for l in ls]
                data = a if many else a[0]
                kw = {"casting": "unsafe"} if f else {}
                for suf in ("", "_subject", "_clip"):
                    for bs in ([polyops.BoolSet.subject, polyops.BoolSet.clip, 0, 1] if not suf else [None]):
                        b = (bs,) if bs is not None else ()
                        st = int(bs) if bs is not None else int(suf == "_clip")
                        s_ = "s" if many else ""
                        txt = "%s(%s%s)" % ("%s" + s_ + suf, "f4, " if f else "", "" if bs is None else repr(bs))
                        out.append((txt % "add_loop", "add_loop" + s_ + suf, (data,) + b, kw, tuple(("loop", st, l) for l in ls), F if f else I))
                        for c, (pos, k) in {"": ((), {}), ", open": ((False,), {}), ", closed=False": ((), {"closed": False}), ", closed": ((True,), {})}.items():
                            for m in (6.5, -2.0):
                                out.append((txt % "add_offset" + c + (" inwards" if m < 0 else ""), "add_offset" + s_ + suf, (data,) + b + (m, 3) + pos, dict(kw, **k),
                                            tuple(("offset", st, l, m, 3, "open" not in c and "False" not in c) for l in ls), F if f else I))
        return out

    fa, fb = forms(first[0]), forms(first[1])
    for cls, tracked in ((polyops.Clipper, False), (polyops.TrackedClipper, True)):
        for x in fa:
            for y in fb:
                if not gate():
                    continue
                for op, tree in ((D.union, False), (D.intersection, True), (D.difference, False), (D.xor, True), (D.normalize, False)) if not tracked else ((D.difference, True), (D.xor, False)):
                    def call():
                        c = cls()
                        for nm, m, a, k, _, _ in (x, y):
                            getattr(c, m)(*a, **k)
                        if tracked and c.next_orig_i != sum(len(i[2]) for i in x[4] + y[4]):
                            raise AssertionError("next_orig_i is %d" % c.next_orig_i)
                        return c.execute(op, tree_out=tree)
                    items = tuple((i[0], i[1], tuple(map(tuple, i[2]))) + tuple(i[3:]) for i in x[4] + y[4])
                    judge("%s: %s; %s; execute(%s%s)" % (cls.__name__, x[0], y[0], op.name, ", tree" if tree else ""), call,
                          ref(tree, tracked, int(op), items), tree, tracked, np.promote_types(x[5], y[5]))


# -------------------------------------------------------------------- winding
def run_winding():
    M = 2**62 - 1
    al = [-M, 0, 1, M] if TIER == "quick" else [-M, -2**31, 0, 1, M]
    small = [(x, y) for x in (0, 1, 2) for y in (0, 1, 2)]

    def exact(p):
        return sum((b[0] - a[0]) * (b[1] + a[1]) for a, b in zip(p, p[1:] + p[:1]))

    def one(p, form):
        name = "winding_dir(%s, %s)" % (list(p), form)
        begin(name)
        count("evals")
        want = ref_winding(p)
        if want:
            count("nontrivial")
        a = np.array(p, np.int64).reshape((-1, 2))
        try:
            got = polyops.winding_dir(ARRAY_FORMS[form](a) if form in ARRAY_FORMS else LIST_FORMS[form](a))
        except Exception as e:  # noqa: BLE001
            return violation("raises", name, "%s: %s" % (type(e).__name__, e))
        if type(got) is not int or got != want:
            violation("differs", name, "%r in place of %d" % (got, want))
    pts = [(x, y) for x in al for y in al]
    for n in (1, 2, 3):
        for p in itertools.product(pts, repeat=n):
            for form in ("C", "lists"):
                if gate():
                    one(p, form)
    for n in (3, 4, 5) if TIER == "thorough" else (3, 4):
        for p in itertools.product(small, repeat=n):
            if gate():
                one(p, "C")
    for p in itertools.product([(0, 0), (50, 0), (50, 60), (3, 70)], repeat=4):
        for form in ARRAY_FORMS:
            if gate():
                one(p, form)
    for dn in DTYPES:
        d = np.dtype(dn)
        for form in ARRAY_FORMS:
            for casting in CASTINGS:
                if gate():
                    for l in (A, A[::-1], LOOPSETS["bow"][0], ()):
                        name = "winding_dir(%s of %s, casting=%s)" % (form, dn, casting)
                        begin(name)
                        count("evals")
                        o = ARRAY_FORMS[form](values(l, d))
                        e = expect_loop(o, casting if casting != "default" else "same_kind")
                        try:
                            got = polyops.winding_dir(o, **({} if casting == "default" else {"casting": casting}))
                            if not e[2]:
                                violation("accepted", name, "no TypeError; gives %r" % got)
                            elif got != ref_winding(e[1]):
                                violation("differs", name, "%r in place of %d" % (got, ref_winding(e[1])))
                        except TypeError as x:
                            if e[2]:
                                violation("raises", name, str(x))


# ------------------------------------------------------------------------ map
def run_map():
    """maps as the library makes them: the second half of the jagged array's interface"""
    deep = 6 if TIER == "thorough" else 5
    for n in range(0, deep):
        for lens in itertools.product(range(4), repeat=n):
            if not gate():
                continue
            count("evals")
            begin("PointMap with lengths %s" % (lens,))
            orig, k = [], 100
            for l in lens:
                orig.append(tuple(range(k, k + l)))
                k += l
            offs = np.array([0] + list(itertools.accumulate(lens)), np.intp)
            idx = np.array([i for o in orig for i in o], np.intp)
            m = polyops.PointMap(offs, idx)
            p = map_problem(m, orig)
            if p:
                violation("map", "PointMap with lengths %s" % (lens,), p)
            if idx.size:
                count("nontrivial")
            want = [i for i, o in enumerate(orig) for _ in o]
            for fname, out in (("C", np.full(len(idx), -5, np.intp)), ("strided", np.full(3 * len(idx) + 2, -5, np.intp)[1:1 + 3 * len(idx):3]), ("backwards", np.full(len(idx), -5, np.intp)[::-1])):
                base = out.base if out.base is not None else out
                r = m.index_map(out)
                if r is not out or out.tolist() != want:
                    violation("map", "index_map(%s) with lengths %s" % (fname, lens), "%s in place of %s" % (out.tolist(), want))
                if fname == "strided" and (np.delete(base, np.arange(1, 1 + 3 * len(idx), 3)[:len(idx)]) != -5).any():
                    violation("map", "index_map(%s) with lengths %s" % (fname, lens), "writes outside of its argument")
            for fname, out in (("too short", np.zeros(len(idx) - 1, np.intp) if len(idx) else None), ("too long", np.zeros(len(idx) + 1, np.intp)), ("of another type", np.zeros(len(idx), np.float64)),
                               ("2-d", np.zeros((1, len(idx)), np.intp)), ("a list", [0] * len(idx)), ("read-only", frozen(np.zeros(len(idx), np.intp)))):
                if out is None:
                    continue
                try:
                    m.index_map(out)
                    violation("map", "index_map(out %s) with lengths %s" % (fname, lens), "accepted")
                except (TypeError, ValueError, BufferError):
                    pass
            for i in (n, n + 1, 2**40):
                try:
                    m[i]
                    violation("map", "PointMap with lengths %s" % (lens,), "no IndexError for %d" % i)
                except (IndexError, OverflowError):
                    pass
            if [x.tolist() for x in m] != [list(o) for o in orig]:
                violation("map", "PointMap with lengths %s" % (lens,), "iteration gives something else")
            for attr in ("offsets", "indices"):
                try:
                    setattr(m, attr, offs)
                    violation("map", attr, "may be replaced")
                except AttributeError:
                    pass


# ----------------------------------------------------------------------- leak
class MallInfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


def run_leak():
    libc = ctypes.CDLL(None)
    libc.mallinfo2.restype = MallInfo

    def used():
        gc.collect()
        m = libc.mallinfo2()
        return m.uordblks + m.hblkhd
    REP = 64
    B = CLIPS["square"][0]
    calls = []
    dts = ["i8", "i2", "f4", "O", ">i4"]
    for dn in dts:
        d = np.dtype(dn)
        for form in ("C", "F", "rows and columns", "broadcast", "__array__"):
            arr = [ARRAY_FORMS[form](values(l, d)) for l in LOOPSETS["hole"] + LOOPSETS["points"]]
            for tree, track in itertools.product((False, True), repeat=2):
                for dt in (None, "f8", "O", "i1"):
                    k = dict(casting="unsafe", tree_out=tree, track_points=track, dtype=dt)
                    nm = "%s of %s %s" % (form, dn, k)
                    calls.append(("union, " + nm, lambda a=arr, k=k: polyops.union(a, **k), arr))
                    if dt is None:
                        calls.append(("boolean_op, " + nm, lambda a=arr, k=k: polyops.boolean_op(a, [B], 3, **k), arr))
                        calls.append(("normalize, " + nm, lambda a=arr, k=k: polyops.normalize(a, **k), arr))
                        calls.append(("offset, " + nm, lambda a=arr, k=k: polyops.offset(a, 5, 3, **k), arr))
            calls.append(("winding_dir, %s of %s" % (form, dn), lambda a=arr: polyops.winding_dir(a[0], casting="unsafe"), arr))

    def failing(f, *a, **k):
        def g():
            try:
                f(*a, **k)
            except Exception:  # noqa: BLE001
                pass
        return g
    arr = [np.array(l, "f8") for l in LOOPSETS["hole"]]
    for f, a in (("union", ()), ("normalize", ()), ("offset", (3, 2))):
        for track in (False, True):
            k = dict(track_points=track)
            calls.append((f + " of floats, refused", failing(getattr(polyops, f), arr, *a, **k), arr))
            calls.append((f + " of a bad second loop", failing(getattr(polyops, f), [A, [1]], *a, **k), arr))
            calls.append((f + " with a bad type", failing(getattr(polyops, f), [A], *a, dtype="nonsense", **k), arr))
            calls.append((f + " with a bad casting", failing(getattr(polyops, f), [A], *a, casting="nonsense", **k), arr))
            calls.append((f + " of a failing iterable", lambda f=f, a=a, k=k: failing(getattr(polyops, f), boom([A, B]), *a, **k)(), arr))
    for cls in (polyops.Clipper, polyops.TrackedClipper):
        def life(cls=cls, tree=False, ex=True, fail=False):
            c = cls()
            c.add_loops(arr, 0, casting="unsafe")
            c.add_offset_clip(B, 4, 5)
            if fail:
                failing(c.add_loops, [A, 3], 1)()
                failing(c.add_offsets, [A], 9, 3, 3)()
                failing(c.execute, 9)()
                failing(c.execute, 0, dtype="nonsense")()
            if ex:
                c.execute(3, tree_out=tree)
                c.add_loop_subject(arr[0], casting="unsafe")
                c.reset()
        for tree, ex, fail in itertools.product((False, True), repeat=3):
            calls.append(("%s, tree %s, executed %s, failures %s" % (cls.__name__, tree, ex, fail), lambda l=life, t=tree, e=ex, f=fail: l(tree=t, ex=e, fail=f), arr))
    r = polyops.union(arr, casting="unsafe", track_points=True)
    m = r[0].originals
    out = np.zeros(len(m.indices), np.intp)
    calls.append(("index_map()", lambda: m.index_map(), [m.indices, m.offsets]))
    calls.append(("index_map(out)", lambda: m.index_map(out), [m.indices, m.offsets, out]))
    calls.append(("index_map(bad)", failing(m.index_map, np.zeros(1)), [m.indices, m.offsets]))
    calls.append(("map[i]", lambda: [m[i] for i in range(len(m))], [m.indices, m.offsets]))
    calls.append(("repr(map)", lambda: repr(m), [m.indices, m.offsets]))
    singles = [np.dtype(x) for x in dts + ["f8", "i1"]] + [polyops.TrackedLoop, polyops.RecursiveLoop, polyops.TrackedRecursiveLoop, polyops.PointMap, polyops.Clipper]
    singles += list(polyops.BoolOp)
    for name, f, arr_ in calls:
        if not gate():
            continue
        begin(name)
        count("evals")
        count("nontrivial")
        try:
            worst = None
            for attempt in range(4):
                for _ in range(8):
                    f()
                rc = [sys.getrefcount(x) for x in singles] + [sys.getrefcount(x) for x in arr_]
                u = used()
                for _ in range(REP):
                    f()
                grow = used() - u
                drc = max((abs(sys.getrefcount(x) - r0) for x, r0 in zip(singles + list(arr_), rc)), default=0)
                w = (drc >= REP // 2, grow >= REP * 40)
                if not any(w):
                    worst = None
                    break
                worst = (drc, grow)
            if worst:
                violation("leak", name, "%d repetitions: reference counts change by %d, memory grows by %d bytes" % (REP, worst[0], worst[1]))
        except Exception as e:  # noqa: BLE001
            violation("raises", name, "%s: %s" % (type(e).__name__, e))


def main():
    w = PART.split(":")
    {"forms": lambda: run_forms(w[1]), "errors": run_errors, "hist": lambda: run_hist(w[1], int(w[2])), "winding": run_winding, "methods": run_methods, "map": run_map, "leak": run_leak}[w[0]]()
    print("R\t" + json.dumps(dict(counters=counters, maxima={}, samples=samples or [current()[1]], truncated=truncated, violations=nviol)), flush=True)


main()
sys.stdout.flush()
os._exit(0)
