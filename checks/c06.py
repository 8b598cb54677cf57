"""C06: invalid boundary lists are rejected by every exact entry point; valid ones are accepted."""
import math, os, struct
import numpy as np
import common, gen, cli
from pylib import PyLib

RULE = ("A case is one list or pair of lists given to one entry point (6 library functions/modes, the same 6 through Python, 4 commands). Invalid lists are valid ones of a random "
        "family with one offence (descent, below 0, above 1, NaN, infinity, wrong length) of a chosen size at a chosen position; valid ones include every kind of tie and edge. "
        "An invalid case is non-trivial (all offences are in otherwise valid lists); distinct by (entry point, all bits).")
LIB = ("b.new", "B.new", "b.mns", "B.mns", "2.ks", "2.fft")
NAN, INF = float("nan"), float("inf")
NANS = [struct.unpack("<d", struct.pack("<Q", u))[0] for u in (0x7ff8000000000000, 0xfff8000000000000, 0x7ff8000000000000, 0x7ff0000000000001, 0xfff0000000000001, 0x7ff7ffffffffffff, 0x7fffffffffffffff, 0xffffffffffffffff, 0x7ff8000000000001, 0x7ff0000100000000, 0x7ff4000000000000)]
NEG = [-5e-324, -1e-300, -1e-17, -0.25, -INF, -1e308, -3.0]
BIG = [np.nextafter(1.0, 2), 1 + 1e-9, 1.5, 1e308, INF]


def offend(v, kind, k, r):
    """A copy of the valid list v with one offence at index k, or None if that offence is impossible there."""
    v = np.array(v, float)
    n = len(v)
    if kind.startswith("descent"):
        if k == 0:
            return None
        if kind == "descent_ulp":
            if v[k - 1] <= 0:
                v[k - 1:] = np.maximum(v[k - 1:], 0.25)
            v[k] = np.nextafter(v[k - 1], -1)
        elif kind == "descent_zero":            # 0 after something positive
            v[k - 1:] = np.maximum(v[k - 1:], r.choice([5e-324, 1e-12, 0.5]))
            v[k] = 0.0
        elif kind == "descent_swap":
            j = int(r.integers(0, k))
            if v[j] == v[k]:
                return None
            v[j], v[k] = v[k], v[j]
        elif kind == "descent_dip":             # only this element is too small, its neighbours are in order
            v[k - 1:] = np.maximum(v[k - 1:], 0.5)
            v[k] = 0.5 * v[k - 1]
        return v if (np.diff(v) < 0).any() else None
    if kind == "negative":
        x = float(r.choice(NEG))
        if r.random() < 0.5:
            v[:k + 1] = x                      # still non-decreasing: only the range is wrong
        else:
            v[k] = x
        return v
    if kind == "above_one":
        x = float(r.choice(BIG))
        if r.random() < 0.5:
            v[k:] = x
        else:
            v[k] = x
        return v
    if kind == "nan":
        v[k] = NANS[int(r.integers(len(NANS)))]        # signs, payloads, quiet and signalling
        return v
    if kind == "nans":
        v[k:] = NANS[int(r.integers(len(NANS)))]
        return v
    if kind == "inf":
        v[k] = INF
        return v
    raise ValueError(kind)


KINDS = ("descent_ulp", "descent_zero", "descent_swap", "descent_dip", "negative", "above_one", "nan", "nans", "inf")


def main():
    chk = common.Check("C06", RULE)
    d = common.build("prod")
    py = common.build_pyext()
    prog = os.path.join(d, "bin", "crossprob")
    k = 8 if chk.thorough else 1
    items = []
    for n in list(range(1, 34)) + [63, 64, 65, 127, 128, 130, 257]:
        for kind in KINDS:
            items += [(n, kind, pos, s) for pos in range(n) for s in range(k if n < 130 else 1)]
    rng = chk.rng(1)
    for n in (500, 1000, 2048, 2049, 5000, 33000, 70000):
        for kind in KINDS:
            items += [(n, kind, int(p), 0) for p in [0, n - 1, n - 2][:3 if n < 10000 else 1] + list(rng.integers(0, n, 3 * k if n < 10000 else k))]
    for n in list(range(0, 20)) + [50, 127, 128, 129, 300]:
        for m in {max(0, n - 1), n + 1, 0, 1, 2 * n + 1, n + 2048} - {n}:
            items.append((n, "length", m, 0))
    for i in range(1500 * k):
        items.append((int(rng.integers(0, 150)), "valid", i, 0))
    names = list(gen.FAMILIES)

    def one(w, entry, b, B, valid, label):
        """entry: ('lib'|'py', fn) or ('cli', command)"""
        lib, pl = w
        how, fn = entry
        answer = None
        if how == "lib":
            kind, r = lib.call(fn, b, B)
            ok = {"R": valid and math.isfinite(r if kind == "R" else 0), "E": not valid, "X": not valid}.get(kind, False)
            answer = "%s %s" % (kind, r)
        elif how == "py":
            a = pl.call(fn, b, B, how=("list", "tuple", "numpy", "vector")[hash(label) % 4 if isinstance(label, int) else len(b) % 4])
            ok = (valid and "r" in a and a["type"] == "float" and math.isfinite(float.fromhex(a["r"]) if "n" not in a["r"] else NAN)) or (not valid and "exc" in a)
            answer = a
            kind = "DIED" if "died" in a else "HANG" if "hang" in a else "R" if "r" in a else "E"
        else:
            text = cli.bounds(b, B)
            for i in range(text.count("nan")):
                text = text.replace("nan", ("NaN", "NAN(7)", "-NaN", "+NaN", "NaN()", "NAN", "NaN(0xabc)")[(len(b) + i) % 7], 1)
            path = cli.write(text)
            r = cli.run([prog, fn, path])
            os.unlink(path)
            ok = r.value is not None if valid else r.rejected
            answer = r.brief()
            kind = "HANG" if r.hang else "DIED" if r.status < 0 else "R" if r.status == 0 else "E"
        chk.observe((how, fn, np.asarray(b, float).tobytes(), np.asarray(B, float).tobytes()),
                    {"entry": how + ":" + fn, "what": str(label), "n": max(len(b), len(B)), "answer": str(answer)[:200]})
        chk.count("%s_%s" % (how, "valid" if valid else "invalid"))
        if not ok:
            what = {"HANG": "hang", "DIED": "crash"}.get(kind, "valid-rejected" if valid else "invalid-answered")
            rep = {"kind": "lib" if how == "lib" else "py" if how == "py" else "cli", "fn": fn, "b": [common.hexf(x) for x in b], "B": [common.hexf(x) for x in B],
                   "expected": "accepted" if valid else "rejected"}
            if how == "cli":
                rep.update(argv=["crossprob", fn], file=cli.bounds(b, B))
            chk.violation("%s:%s:%s:%s" % (how, fn, what, label if isinstance(label, str) else "valid"),
                          {"n": [len(b), len(B)], "b": [float(x) for x in b[:12]], "B": [float(x) for x in B[:12]], "answer": str(answer)[:800]}, rep)

    def body(w, it):
        n, kind, pos, s = it
        r = chk.rng(2, n, sum(map(ord, kind)), pos, s)
        if kind == "length":
            b, B = gen.FAMILIES[names[int(r.integers(len(names)))]](max(n, 1), r)
            b = b[:n]
            B = np.linspace(0.3, 1, pos) if r.random() < 0.5 else np.ones(pos)
            if r.random() < 0.5 and pos < n:
                B = np.ones(n)[:pos]
            for e in (("lib", "2.ks"), ("lib", "2.fft"), ("py", "2.ks"), ("py", "2.fft")):
                one(w, e, b, B, False, "length")
            if n and pos:                       # one empty line is a different, legitimate request
                for c in ("ecdf2-ks2001", "ecdf2-mn2017"):
                    one(w, ("cli", c), b, B, False, "length")
            return
        if kind == "valid":
            b, B = gen.FAMILIES[names[pos % len(names)]](n, r) if n else (np.zeros(0), np.ones(0))
            if n:
                z = int(r.integers(6))
                if z == 0:
                    b = np.where(b == 0, -0.0, b)
                elif z == 1:
                    B = np.full(n, B[int(r.integers(n))])
                elif z == 2:
                    b = np.zeros(n)
                    b[int(r.integers(n)):] = 1.0
                elif z == 3:
                    B = np.ones(n)
                    B[:int(r.integers(n + 1))] = 0.0
                elif z == 4:
                    b = gen.mono(np.repeat(b[::2], 2)[:n])
            for e in LIB:
                one(w, ("lib", e), b, B, True, pos)
            if pos % 4 == 0:
                for e in LIB:
                    one(w, ("py", e), b, B, True, pos)
            if pos % 8 == 0 and n:
                for c in cli.ALGOS:
                    bb, BB = (b, B) if c.startswith("ecdf2") else ((b, []) if pos % 16 else ([], B))
                    one(w, ("cli", c), bb, BB, True, pos)
            return
        b, B = gen.FAMILIES[names[int(r.integers(len(names)))]](n, r)
        bad_b, bad_B = offend(b, kind, pos, r), offend(B, kind, pos, r)
        side = int(r.integers(3))
        some = lambda q: r.random() < q
        if bad_b is not None:
            for e in ("b.new", "b.mns"):
                one(w, ("lib", e), bad_b, [], False, kind)
        if bad_B is not None:
            for e in ("B.new", "B.mns"):
                one(w, ("lib", e), [], bad_B, False, kind)
        pair = (bad_b, B) if side == 0 else (b, bad_B) if side == 1 else (bad_b, bad_B)
        if pair[0] is None or pair[1] is None:
            pair = (bad_b, np.ones(n)) if bad_b is not None else (np.zeros(n), bad_B) if bad_B is not None else None
        if pair:
            for e in ("2.ks", "2.fft"):
                one(w, ("lib", e), pair[0], pair[1], False, kind)
            # the same with the second offence hidden behind an impossible event, and against trivial other sides
            if some(0.2):
                one(w, ("lib", "2.ks"), pair[0], pair[1][::-1].copy() if side == 0 and len(set(pair[1])) > 1 else pair[1], False, kind)
        if n <= 33 and some(0.35) or 400 < n < 10000:
            if bad_b is not None:
                for e in ("b.new", "b.mns"):
                    one(w, ("py", e), bad_b, [], False, kind)
            if bad_B is not None:
                for e in ("B.new", "B.mns"):
                    one(w, ("py", e), [], bad_B, False, kind)
            if pair:
                for e in ("2.ks", "2.fft"):
                    one(w, ("py", e), pair[0], pair[1], False, kind)
        if n <= 33 and some(0.12) or (400 < n < 10000 and some(0.15)):
            if bad_b is not None:
                one(w, ("cli", "ecdf1-new"), bad_b, [], False, kind)
                one(w, ("cli", "ecdf1-mns2016"), bad_b, [], False, kind)
                one(w, ("cli", "ecdf2-mn2017"), bad_b, [], False, kind)
            if bad_B is not None:
                one(w, ("cli", "ecdf1-new"), [], bad_B, False, kind)
                one(w, ("cli", "ecdf1-mns2016"), [], bad_B, False, kind)
                one(w, ("cli", "ecdf2-ks2001"), [], bad_B, False, kind)
            if pair:
                one(w, ("cli", "ecdf2-ks2001"), pair[0], pair[1], False, kind)
                one(w, ("cli", "ecdf2-mn2017"), pair[0], pair[1], False, kind)
        chk.count("kind_" + kind)
        chk.maximum("largest_n", n)

    def make():
        w = (common.Lib(d), PyLib(py))
        return (lambda it: body(w, it)), (lambda: (w[0].close(), w[1].close()))
    common.parallel(chk, items, make)
    chk.assumptions = ["which lists are valid is decided by the generator's construction", "Monte-Carlo modes are outside this property"]
    return chk.finish(20000, 15000)
