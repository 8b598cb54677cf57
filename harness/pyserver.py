"""Command server around the Python module: one JSON request per line, one JSON answer per line.
  {"fn": name, "args": [spec...], "kw": {..}?, "rep": k?}
  spec: {"t": "list"|"tuple"|"numpy"|"strided"|"vector"|"userseq"|"ints"|"mixed", "v": [hex...]} or {"lit": python expression}
  answer: {"r": hex, "type": t} | {"exc": class name, "mro": [...], "msg": ...} | {"diff": [..]} ; plus "mut": true when an argument changed,
          "refs": change of the arguments' reference counts
"""
import sys, os, json, gc, ctypes, warnings, array, collections, random, struct
warnings.simplefilter("ignore")
chan = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
import numpy as np
import crossprob
AF = ctypes.CDLL(None)


class UserSeq:
    """A minimal sequence: only __len__ and __getitem__."""
    def __init__(self, v):
        self.v = v

    def __len__(self):
        return len(self.v)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return UserSeq(self.v[i])
        return self.v[i]


class FloatSubclass(float):
    pass


class ListSubclass(list):
    pass


class BadSeq:
    """A sequence whose n-th element raises."""
    def __init__(self, n, exc):
        self.n, self.exc = n, exc

    def __len__(self):
        return self.n + 1

    def __getitem__(self, i):
        if i >= self.n:
            raise self.exc("from BadSeq")
        return 0.5


class LyingSeq:
    """Claims more elements than it has."""
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n + 5

    def __getitem__(self, i):
        if i >= self.n:
            raise IndexError(i)
        return 0.5


class LenlessSeq:
    """Elements but no usable length."""
    def __len__(self):
        raise ValueError("from LenlessSeq")

    def __getitem__(self, i):
        if i >= 50:
            raise IndexError(i)
        return 0.5


def make(spec):
    if "lit" in spec:
        return eval(spec["lit"], dict(np=np, crossprob=crossprob, UserSeq=UserSeq, BadSeq=BadSeq, LyingSeq=LyingSeq, LenlessSeq=LenlessSeq))
    v = [struct.unpack("<d", struct.pack("<Q", int(x[1:], 16)))[0] if x[0] == "x" else float(x) if x in ("nan", "inf", "-inf") else float.fromhex(x) for x in spec["v"]]
    t = spec["t"]
    if t == "list":
        return v
    if t == "tuple":
        return tuple(v)
    if t == "numpy":
        return np.array(v, dtype=float)
    if t == "strided":
        return np.repeat(np.array(v, dtype=float), 2)[::2]
    if t == "vector":
        return crossprob.VectorDouble(v)
    if t == "userseq":
        return UserSeq(v)
    if t == "array":
        return array.array("d", v)
    if t == "deque":
        return collections.deque(v)
    if t == "reversed":
        return np.array(v[::-1], dtype=float)[::-1]
    if t == "readonly":
        a = np.array(v, dtype=float)
        a.setflags(write=False)
        return a
    if t == "npfloats":
        return [np.float64(x) for x in v]
    if t == "subclass":
        return ListSubclass(FloatSubclass(x) for x in v)
    if t == "column":       # one column of a matrix
        m = np.full((len(v), 3), 7.0)
        m[:, 1] = v
        return m[:, 1]
    if t == "mixed":        # Python ints where the value is integral
        return [int(x) if x == int(x) else x for x in v]
    raise SystemExit(77)


def snapshot(a):
    if isinstance(a, LenlessSeq):
        return None
    try:
        return [float(x).hex() for x in a]
    except BaseException:
        return None


def vector_model(seed, steps):
    """A VectorDouble and a list undergo the same operations: same contents, same results, same kind of failure. Returns the first difference."""
    r = random.Random(seed)
    num = lambda: r.choice([0.0, 1.0, 0.5, r.random(), r.random(), -0.0, 5e-324, r.randrange(5)])
    model = [num() for i in range(r.choice([0, 1, 2, 3, 8, 40, 300]))]
    how = r.choice(["list", "tuple", "copy", "generator-list", "append", "size"])
    if how == "append":
        v = crossprob.VectorDouble()
        for x in model:
            v.append(x)
    elif how == "size":
        x = float(num())
        model = [x] * len(model)
        v = crossprob.VectorDouble(len(model), x)
    else:
        v = crossprob.VectorDouble(tuple(model) if how == "tuple" else crossprob.VectorDouble(model) if how == "copy" else model)
    log = [how, len(model)]
    bits = lambda x: [float(t).hex() for t in x]
    for step in range(steps):
        n = len(model)
        idx = lambda: r.randint(-n - 2, n + 2)
        # non-empty slices inside the vector only: SWIG's own std::vector support gets v[len(v):] wrong, which is none of this package's code
        lo, hi = sorted((r.randint(0, n), r.randint(0, n)))
        step = r.choice([None, None, None, 1, 2, 3, -1, -2])
        sl = slice(lo or r.choice([None, 0]), r.choice([hi, hi - n if hi < n else None]), step)
        if step and step < 0:
            sl = slice(hi - 1, lo - 1 if lo else None, step)
        op = r.choice(["append", "pop", "get", "set", "getslice", "setslice", "delitem", "delslice", "len", "iter", "bool", "resize", "copy", "in", "push_back", "swap", "front", "clear", "reserve", "assign", "reversed", "insert"])
        x, i, k = num(), idx(), r.randint(0, 30)
        seq = [num() for _ in range(r.choice([0, 1, 2, 5]))]
        if op == "insert":
            k = r.randint(0, n)
        if "slice" in op and (lo == hi or step not in (None, 1)) and (lo == hi or op != "getslice"):
            continue
        def on_list(m):
            if op in ("append", "push_back"): return m.append(x)
            if op == "pop": return m.pop()
            if op == "get": return m[i]
            if op == "set": m[i] = x; return
            if op == "getslice": return bits(m[sl])
            if op == "setslice": m[sl] = seq; return
            if op == "delitem": del m[i]; return
            if op == "delslice": del m[sl]; return
            if op == "len": return len(m)
            if op == "iter": return bits(m)
            if op == "bool": return bool(m)
            if op == "resize": m[:] = (m + [float(x)] * k)[:max(k, 0)] if len(m) < k else m[:k]; return
            if op == "copy": return bits(list(m))
            if op == "in": return x in m
            if op == "swap": m[:] = seq; return
            if op == "front": return (m[0], m[-1]) if m else None
            if op == "clear": return m.clear()
            if op == "reserve": return
            if op == "assign": m[:] = [float(x)] * k; return
            if op == "reversed": return bits(reversed(m))
            if op == "insert": m.insert(k, x); return
        def on_vector(m):
            if op in ("append", "push_back"): return getattr(m, op)(x)
            if op == "copy": return bits(crossprob.VectorDouble(m))
            if op == "getslice": return bits(m[sl])
            if op == "resize": return m.resize(k, float(x))
            if op == "bool": return bool(m) and not m.empty()
            if op == "len": return len(m) if len(m) == m.size() else "size() differs"
            if op == "swap": return m.swap(crossprob.VectorDouble(seq))
            if op == "front": return (m.front(), m.back()) if len(m) else None
            if op == "clear": return m.clear()
            if op == "reserve": return m.reserve(k) if m.capacity() >= len(m) else "capacity"
            if op == "assign": return m.assign(k, float(x))
            if op == "insert":
                it = m.begin()
                for _ in range(k): it.incr()
                m.insert(it, x)
                return
            return on_list(m)
        log.append((op, x if op in ("append", "set", "in") else i if op in ("get", "delitem") else str(sl) if "slice" in op else k))
        res = []
        for f, obj in ((on_list, model), (on_vector, v)):
            try:
                a = f(obj)
                res.append(("value", float(a).hex() if isinstance(a, (int, float)) and not isinstance(a, bool) else a))
            except Exception as e:
                res.append(("raises",))
        if res[0] != res[1] or bits(v) != bits(model):
            return {"vec": "differs", "log": log[-8:], "list": str(res[0])[:200], "vector": str(res[1])[:200], "model": bits(model)[:20], "contents": bits(v)[:20]}
    return {"vec": "same", "steps": steps}


V = crossprob.VectorDouble
OPS = {     # things a caller may do with a VectorDouble; the answer is its length afterwards
    "op:make": lambda v, k: len(V(v)),
    "op:size": lambda v, k: len(V(k)),
    "op:fill": lambda v, k: len(V(k, 0.25)),
    "op:copy": lambda v, k: len(V(V(v))),
    "op:append": lambda v, k: ([v.append(0.5) for _ in range(min(k, 3000))], len(v))[1],
    "op:push_back": lambda v, k: ([v.push_back(0.5) for _ in range(min(k, 3000))], len(v))[1],
    "op:resize": lambda v, k: (v.resize(k), len(v))[1],
    "op:resize2": lambda v, k: (v.resize(k, 0.5), len(v))[1],
    "op:reserve": lambda v, k: (v.reserve(k), len(v))[1],
    "op:assign": lambda v, k: (v.assign(k, 0.5), len(v))[1],
    "op:insert": lambda v, k: (v.insert(v.begin(), 0.5), len(v))[1],
    "op:insertk": lambda v, k: (v.insert(v.begin(), k, 0.5), len(v))[1],
    "op:slice": lambda v, k: len(v[0:max(1, len(v) - 1)]),
    "op:setslice": lambda v, k: (v.__setitem__(slice(0, 1), [0.5] * min(k, 3000)), len(v))[1],
    "op:iterate": lambda v, k: len([x for x in v]),
}

for line in sys.stdin:
    q = json.loads(line)
    out = {}
    if "vec" in q:
        print(json.dumps(vector_model(q["vec"], q["steps"])), file=chan, flush=True)
        continue
    try:
        args = [make(s) for s in q["args"]]
        kw = {k: make(s) for k, s in q.get("kw", {}).items()}
    except Exception as e:
        print(json.dumps({"harness": repr(e)}), file=chan, flush=True)
        continue
    objs = args + list(kw.values())
    before = [None if isinstance(q['args'][i] if i < len(args) else {}, dict) and 'lit' in (q['args'][i] if i < len(args) else {}) else snapshot(a) for i, a in enumerate(objs)]
    if "oomleak" in q:          # the same failing call again and again: how many blocks does each leave behind?
        k, sticky, reps = q["oomleak"]
        m, levels, failed, outcome = (ctypes.c_long * 4)(), [], 0, None
        f = OPS[q["fn"]] if q["fn"] in OPS else getattr(crossprob, q["fn"])
        for i in range(reps):
            try:
                AF.af_arm(k, sticky)
                f(*args, **kw)
                AF.af_disarm()
                outcome = "value"
            except BaseException as e:
                AF.af_disarm()
                outcome = type(e).__name__
                e = None
            failed += AF.af_failed()
            AF.mt_get(m)
            levels.append(m[1])
        print(json.dumps({"gain": levels[-1] - levels[reps // 3], "calls": reps - 1 - reps // 3, "failed": failed, "outcome": outcome, "counted": AF.af_disarm()}), file=chan, flush=True)
        continue
    counts = [sys.getrefcount(a) for a in args]
    answers = []
    oom = q.get("oom")          # [k, sticky]: allocations fail during the call (harness/allocfail.c preloaded)
    for _ in range(q.get("rep", 1)):
        try:
            f = OPS[q["fn"]] if q["fn"] in OPS else getattr(crossprob, q["fn"])
            if oom:
                AF.af_arm(oom[0], oom[1])
            r = f(*args, **kw)
            if oom:
                AF.af_disarm()
            a = {"r": r.hex() if isinstance(r, float) else repr(r), "type": type(r).__name__}
            del r
        except BaseException as e:
            if oom:
                AF.af_disarm()
            a = {"exc": type(e).__name__, "mro": [c.__name__ for c in type(e).__mro__], "msg": str(e)[:500]}
            e = None
        answers.append(a)
    out = answers[0]
    if any(a != answers[0] for a in answers):
        out = {"diff": answers}
    if any(x is not None and x != snapshot(a) for x, a in zip(before, objs)):
        out["mut"] = True
    if oom:
        out["counted"], out["failed"] = AF.af_disarm(), AF.af_failed()
    gc.collect(0)
    counts2 = [sys.getrefcount(a) for a in args]
    out["refs"] = sum(y - x for x, y in zip(counts, counts2) if x < 1000000)
    print(json.dumps(out), file=chan, flush=True)
