"""C15: the Python module is faithful to the library (shipped wrapper and regenerated wrapper)."""
import numpy as np
import common, gen, cli
from c04 import narrow, cells, near_edges, faraway
from c06 import offend, KINDS
from pylib import PyLib

RULE = ("A case is one call of the Python module, built from the shipped wrapper or from one regenerated with SWIG, on boundaries in one kind of Python sequence, compared with the C++ library on the same values: same probability as a float, "
        "RuntimeError where the library reports an error, TypeError for wrong types or counts; after each error a valid call must still be answered; arguments keep their contents and reference counts. "
        "Distinct by (build, call, sequence kind, bits or literal); non-trivial when the boundary is not empty.")
LIB = ("b.new", "B.new", "b.mns", "B.mns", "2.ks", "2.fft")
HOWS = ("list", "tuple", "numpy", "vector", "strided", "userseq", "mixed", "array", "deque", "reversed", "readonly", "npfloats", "subclass", "column")
VECOPS = ("op:size", "op:fill", "op:resize", "op:resize2", "op:reserve", "op:assign", "op:insertk")
IMPOSSIBLE = (10 ** 13, 10 ** 18, 2 ** 60, 2 ** 61 - 1, 2 ** 61, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, -1, 10 ** 30, 1e300, 0.5, None)
# arguments that are not sequences of numbers
BADTYPES = ["1", "0.5", "0", "'abc'", "[None]", "['0.5']", "[[0.5]]", "[0.5 + 0j]", "object()", "crossprob", "[0.5] * 3 + ['x']", "[0.1] * 500 + [None]",
            "[[0.1, 0.2], [0.3, 0.4]]", "len", "int", "[0.5, object()]", "np.zeros((2, 2))", "[0.1, {}]", "lambda: 0", "[b'0.5']", "np.array(['a', 'b'])", "1j"]
WRONGFLAG = ["'True'", "[]", "2.5", "'x'", "object()"]
# whatever the answer, the interpreter must survive
HOSTILE = ["None", "[10 ** 400]", "BadSeq(0, ValueError)", "BadSeq(2, ValueError)", "BadSeq(3, MemoryError)", "BadSeq(1, KeyboardInterrupt)", "LyingSeq(0)", "LyingSeq(3)", "np.array(0.5)", "LenlessSeq()", "np.array([0.5], dtype=np.float32)", "np.array([1, 0])",
           "[True]", "b'abc'", "bytearray(b'ab')", "''", "range(2)", "np.array([0.1, 0.2], dtype='>f8')", "memoryview(np.zeros(3))", "np.ma.array([0.1, 0.2])", "[np.float64('nan')]", "[float('inf')] * 3", "[2.0] * 100000",
           "np.full(200000, 2.0)", "[1e308, -1e308]", "crossprob.VectorDouble()", "crossprob.VectorDouble([float('nan')])", "[-0.0]", "[2 ** 70]", "np.zeros(0)", "np.array([0.1, 0.2], dtype=object)", "np.array([1 + 0j])", "type('L', (list,), {})([0.1])"]


def main():
    chk = common.Check("C15", RULE)
    d = common.build("prod")
    builds = {"shipped": common.build_pyext(), "regenerated": common.build_pyext(True)}
    k = 8 if chk.thorough else 1
    names = list(gen.FAMILIES)
    rng = chk.rng(1)
    items = []
    for n in (6000, 2500, 2048, 1024, 800):
        for fn in LIB:
            if n > 1100 and (fn == "2.ks" or (fn.endswith("mns") and n > 3000) or (fn == "2.fft" and n > 3000)):
                continue
            items.append(("value", fn, n, "coarse", HOWS[int(rng.integers(len(HOWS)))], n))
    for how in HOWS:
        for fn in LIB:
            for n in (0, 1, 2, 3, 10, 127, 128, 200):
                for f in ("tube", "edge"):
                    items.append(("value", fn, n, f, how, 1))
    for i in range(2200 * k):
        items.append(("value", LIB[i % 6], int(rng.choice([1, 2, 3, 5, 8, 13, 30, 70])), names[int(rng.integers(len(names)))], HOWS[int(rng.integers(len(HOWS)))], 10 + i))
    for i in range(240 * k):                                         # extreme values in the kinds a call could write to
        items.append(("value", LIB[i % 6], int(rng.choice([2, 5, 9, 20, 60])), ("edge", "tiny", "remote", "touching", "cluster")[i // 6 % 5], ("vector", "numpy", "list", "array")[i // 30 % 4], 5000 + i))
    for i in range(150 * k):
        items.append(("tail", "2.ks", int(rng.integers(1, 60)), ("narrow", "cells", "near_edges")[i % 3], HOWS[i % len(HOWS)], i))
    for i, n in enumerate((150, 300, 600, 1025, 1300) * (1 + k)):
        items.insert(0, ("tail", "2.ks", n, ("narrow", "faraway")[i // 5 % 2], HOWS[i % len(HOWS)], 1000 + i))
    for i in range(700 * k):
        items.append(("bad", LIB[int(rng.integers(6))], int(rng.choice([1, 2, 3, 10, 40, 200])), (KINDS + ("length",))[i % (len(KINDS) + 1)], HOWS[int(rng.integers(6))], i))
    for i, t in enumerate(BADTYPES):
        for fn in LIB:
            items.append(("type", fn, 0, t, "", i))
    for i in range(30):
        items.append(("count", LIB[i % 6], i % 5, "", "", i))
    for t in WRONGFLAG:
        items.append(("flag", "2.ks", 0, t, "", 0))
    for i, t in enumerate(HOSTILE):
        for fn in ("b.new", "B.mns", "2.fft"):
            items.append(("hostile", fn, 0, t, "", i))

    for i in range(120 * k):
        items.append(("model", "", 0, "", "", i))
    for op in VECOPS:
        for x in IMPOSSIBLE:
            items.append(("impossible", op, 0, repr(x), "", 0))

    def body(w, it):
        what, fn, n, f, how, i = it
        for bld in builds:
            one(w, bld, what, fn, n, f, how, i)

    def py(w, bld):
        if bld not in w:
            w[bld] = PyLib(builds[bld], timeout=60)
        return w[bld]

    def alive(w, bld):
        a = py(w, bld).ask({"fn": "ecdf1_new_b", "args": [{"lit": "[0.25]"}]})
        return "r" in a and abs(float.fromhex(a["r"]) - 0.75) < 1e-12

    def fail(bld, fn, what, label, detail, req=None):
        chk.violation("%s:%s:%s:%s" % (bld, PyLib.FN[fn][0], what, label), detail, {"kind": "py", "regenerate": bld == "regenerated", "request": req})

    def vec(P, w, bld, what, op, f, i):
        if what == "model":
            for j in range(10):
                seed = [chk.seed, i, j]
                req = {"vec": repr(seed), "steps": 25}
                a = P.ask(req)
                chk.observe((bld, what, i, j), {"build": bld, "what": "VectorDouble against a list", "seed": seed, "answer": a})
                chk.count("vector_model_steps_" + bld, a.get("steps", 0))
                if a.get("vec") != "same":
                    chk.violation("%s:VectorDouble:%s" % (bld, "crash" if "died" in a else "hang" if "hang" in a else "differs-from-list"), {"build": bld, "answer": a}, {"kind": "py", "regenerate": bld == "regenerated", "request": req})
            return
        req = {"fn": op, "args": [{"t": "vector", "v": [0.5.hex()] * 3}, {"lit": f}]}
        a = P.ask(req)
        chk.observe((bld, what, op, f), {"build": bld, "call": op, "argument": f, "python": a})
        chk.count("impossible_sizes_" + bld)
        rep = {"kind": "py", "regenerate": bld == "regenerated", "request": req}
        if "exc" not in a:
            chk.violation("%s:VectorDouble:%s:%s" % (bld, op, "crash" if "died" in a else "hang" if "hang" in a else "no-exception"), {"build": bld, "size": f, "answer": a}, rep)
        elif not alive(w, bld):
            chk.violation("%s:VectorDouble:%s:unusable-after-error" % (bld, op), {"build": bld, "size": f, "answer": a}, rep)

    def one(w, bld, what, fn, n, f, how, i):
        if what in ("model", "impossible"):
            vec(py(w, bld), w, bld, what, fn, f, i)
            return
        r = chk.rng(2, n, sum(map(ord, fn)), sum(map(ord, f)), sum(map(ord, how)), i, len(what))
        name, flag = PyLib.FN[fn]
        P = py(w, bld)
        if what in ("value", "tail", "bad"):
            if what == "value":
                b, B = gen.FAMILIES[f](n, r) if n else (np.zeros(0), np.zeros(0))
            elif what == "tail":
                b, B = {"narrow": narrow, "cells": cells, "near_edges": near_edges, "faraway": faraway}[f](n, r)
            else:
                b, B = gen.FAMILIES["tube"](n, r)
                if f == "length":
                    fn = "2.ks" if i % 2 else "2.fft"
                    name, flag = PyLib.FN[fn]
                    b, B = (b[:-1], B) if i % 4 < 2 else (b, np.append(B, 1.0))
                else:
                    pos = int(r.integers(n))
                    x, y = offend(b, f, pos, r), offend(B, f, pos, r)
                    if x is None or y is None:
                        return
                    b, B = (x, y) if fn[0] != "2" else [(x, B), (b, y), (x, y)][int(r.integers(3))]
            lb, lB = (b, []) if fn[0] == "b" else ([], B) if fn[0] == "B" else (b, B)
            kind, want = w["lib"].call(fn, lb, lB)
            if kind not in ("R", "E"):
                fail(bld, fn, "library-" + kind, f, {"answer": str(want)[:500], "n": n})
                return
            if what == "bad" and kind == "R" or what != "bad" and kind == "E":
                fail(bld, fn, "library-verdict", f, {"answer": str(want)[:500], "n": n, "note": "the library itself accepts an invalid or rejects a valid boundary"})
                return
            spec = lambda v: {"t": how, "v": [common.hexf(x) for x in v]}
            args = [spec(b), spec(B), {"lit": flag}] if fn[0] == "2" else [spec(b if fn[0] == "b" else B)]
            req = {"fn": name, "args": args, "rep": 3 if n < 200 else 1}
            if i % 5 == 3 and n < 200:                               # by the documented parameter names
                req = dict(req, args=[], kw=dict(zip(("b", "B", "use_fft") if fn[0] == "2" else (fn[0],), args)))
                chk.count("keyword_calls")
            a = P.ask(req)
            if "diff" in a and all("r" in x for x in a["diff"]):    # equal up to rounding is enough
                a = dict(a["diff"][0], mut=a.get("mut"), refs=a.get("refs"))
            label = "%s/%s" % (f, how)
            brief = {"build": bld, "case": label, "n": n, "b": [float(x) for x in b[:8]], "B": [float(x) for x in B[:8]], "library": want, "python": a}
            chk.observe((bld, what, name, flag, how, np.asarray(lb, float).tobytes(), np.asarray(lB, float).tobytes()) if n else None, {k: v for k, v in brief.items() if k not in ("b", "B")})
            chk.count("%s_%s" % (what, bld))
            chk.count("sequence_kind_" + how)
            if "died" in a or "hang" in a:
                fail(bld, fn, "crash" if "died" in a else "hang", label, brief, req)
            elif kind == "E":
                if a.get("exc") != "RuntimeError" and "RuntimeError" not in a.get("mro", []):
                    fail(bld, fn, "library-error-not-RuntimeError", f, brief, req)
                elif not alive(w, bld):
                    fail(bld, fn, "unusable-after-error", f, brief, req)
            elif "r" not in a:
                fail(bld, fn, "no-value", how, brief, req)
            else:
                v = float.fromhex(a["r"]) if a["type"] == "float" else float("nan")
                err = abs(v - want)
                chk.maximum("max_abs_difference_python_library", err if err == err else -1.0)
                if a["type"] != "float":
                    fail(bld, fn, "not-a-float", how, brief, req)
                elif not err <= 2e-10 or (what == "tail" and want > 1e-290 and not err <= 1e-8 * want):
                    fail(bld, fn, "different-value", how, brief, req)
            if a.get("mut"):
                fail(bld, fn, "argument-modified", how, brief, req)
            if a.get("refs"):
                fail(bld, fn, "reference-count-changed", how, brief, req)
            return
        good = {"lit": "[0.1, 0.2]"}
        lit = {"lit": f}
        if what == "count":
            m = [0, 2, 3, 4, 5][n] if fn[0] != "2" else [0, 1, 2, 4, 5][n]
            args = ([good] * min(2, m) + [{"lit": "True"}] * max(0, m - 2)) if fn[0] == "2" else [good] * m
            f = "%d arguments" % m
        elif what == "flag":
            args = [good, good, lit]
        elif fn[0] == "2":
            args = [lit, good, {"lit": flag}] if i % 2 else [good, lit, {"lit": flag}]
        else:
            args = [lit]
        req = {"fn": name, "args": args}
        a = P.ask(req)
        brief = {"build": bld, "call": name, "argument": f, "python": a}
        chk.observe((bld, what, name, f), brief)
        chk.count("%s_%s" % (what, bld))
        if "died" in a or "hang" in a:
            fail(bld, fn, "crash" if "died" in a else "hang", f, brief, req)
            return
        if what != "hostile" and "TypeError" not in a.get("mro", []):
            fail(bld, fn, "wrong-%s-not-TypeError" % what, f, brief, req)
        if a.get("refs"):
            fail(bld, fn, "reference-count-changed", f, brief, req)
        if not alive(w, bld):
            fail(bld, fn, "unusable-after-error", f, brief, req)

    def make():
        w = {"lib": common.Lib(d)}
        return (lambda it: body(w, it)), (lambda: [x.close() for x in w.values()])
    common.parallel(chk, items, make)
    chk.assumptions = ["the wrapper is built with the system python3 and numpy; the regenerated one with the installed SWIG", "the extension is compiled without -ffast-math, so its last bits may differ from the C++ build: tolerance 2e-10, and 1e-8 relative in the tail"]
    return chk.finish(5000, 3500)
