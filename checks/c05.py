"""C05: every way of asking for the same probability gives the same answer, at sample sizes no test uses."""
import math
import numpy as np
import common, gen, numeric
from closed import daniels, smirnov, kolmogorov

RULE = ("A case is one event evaluated by every algorithm, mode and reflection that can express it (plus a closed form where there is one); all answers must lie "
        "within 1e-9 of each other; non-trivial when that probability lies strictly between 1e-9 and 1-1e-9; distinct by all boundary bits.")
TOL = 1e-9


def dyadic(v):
    """Multiples of 2^-50: 1-x is then exact, so that a reflected boundary is exactly the reflected event."""
    return np.round(np.asarray(v, float) * 2.0 ** 50) / 2.0 ** 50


def main():
    chk = common.Check("C05", RULE)
    d = common.build("prod")
    k = 10 if chk.thorough else 1
    rng = chk.rng(1)
    items = []
    # (n, family, index, kind) ; kind: one-sided lower 'b', upper 'B', two-sided '2'
    if chk.thorough:
        items += [(50000, "daniels", 0, "b"), (33000, "smirnov", 0, "B"), (17000, "daniels", 1, "b")]
    items += [(20000, "smirnov", 0, "b"), (20000, "daniels", 1, "B"), (12000, "daniels", 2, "b"), (10000, "smirnov", 3, "B")]
    items += [(50000, "band", 0, "2"), (20000, "kolmogorov", 0, "2"), (12000, "kolmogorov", 1, "2"), (9000, "band", 2, "2"), (5000, "kolmogorov", 2, "2")]
    for n in (8000, 6000, 5000, 4097, 4096, 4095, 3000, 2500, 2049, 2048, 2047):
        for f in ("coarse", "few", "tube", "bj", "remote"):
            for i in range(max(1, k // 3)):
                items += [(n, f, i, "2")] + ([(n, f, i, "b"), (n, f, i, "B")] if n < 5500 else [])
    names = list(gen.FAMILIES)
    for i in range(250 * k):
        n = int(rng.integers(300, 1500))
        items.append((n, gen.LIVELY[i % len(gen.LIVELY)], i, "bB2"[int(rng.integers(3))]))
    for i in range(2500 * k):
        n = int(rng.integers(1, 300))
        items.append((n, names[i % len(names)], i, "bB2"[int(rng.integers(3))]))

    def body(j, it):
        n, f, idx, kind = it
        r = chk.rng(2, n, sum(map(ord, f)), idx, ord(kind))
        i = np.arange(1, n + 1)
        exact = None
        if f == "daniels":
            a = r.choice([0.2, 0.5, 0.8])
            b, exact = a * i / n, daniels(a)
            B = 1 - b[::-1]
        elif f == "smirnov":
            c = r.choice([0.3, 0.7, 1.2]) / math.sqrt(n)
            b, exact = np.clip(i / n - c, 0, 1), smirnov(n, c)
            B = 1 - b[::-1]
        elif f in ("kolmogorov", "band"):
            c = r.choice([0.6, 0.8, 1.0] if n > 10000 else [0.6, 0.9, 1.36]) / math.sqrt(n)
            b, B = np.clip(i / n - c, 0, 1), np.clip((i - 1) / n + c, 0, 1)
            exact = kolmogorov(n, c) if f == "kolmogorov" else None
        else:
            b, B = gen.FAMILIES[f](n, r)
        b, B = dyadic(gen.mono(b)), dyadic(gen.mono(B))
        zero, one = np.zeros(n), np.ones(n)
        rb, rB = 1 - B[::-1], 1 - b[::-1]
        ans = {}
        calls = []
        if kind == "b":
            calls = [("b.new", b, []), ("B.new", [], rB)]
            if n <= 3000:
                calls += [("b.mns", b, []), ("B.mns", [], rB)]
            if n <= 12000:
                calls += [("2.fft", b, one)]
            if n <= 5000:
                calls += [("2.fft", zero, rB)]
            if n <= 900:
                calls += [("2.ks", b, one), ("2.ks", zero, rB)]
        elif kind == "B":
            calls = [("B.new", [], B), ("b.new", rb, [])]
            if n <= 3000:
                calls += [("B.mns", [], B), ("b.mns", rb, [])]
            if n <= 12000:
                calls += [("2.fft", zero, B)]
            if n <= 5000:
                calls += [("2.fft", rb, one)]
            if n <= 900:
                calls += [("2.ks", zero, B), ("2.ks", rb, one)]
        else:
            calls = [("2.fft", b, B), ("2.fft", rb, rB)]
            if n <= 1500 or f in ("kolmogorov", "band", "tube", "bj", "remote"):
                calls += [("2.ks", b, B)]
                if n <= 900:
                    calls += [("2.ks", rb, rB)]
        for fn, x, y in calls:
            v = j.value(fn, x, y, "%s n=%d %s" % (f, n, kind), timeout=150)
            chk.count("calls_" + fn)
            if v is not None:
                ans[fn + ("" if (x is b or y is B) else "~")] = v
        if exact is not None:
            ans["closed-form"] = exact
        if not ans:
            return
        lo, hi = min(ans.values()), max(ans.values())
        chk.observe((kind, b.tobytes() if kind != "B" else 0, B.tobytes() if kind != "b" else 0) if 1e-9 < lo and hi < 1 - 1e-9 else None,
                    {"case": f, "n": n, "kind": kind, "answers": ans})
        chk.count("kind_" + kind)
        chk.maximum("largest_n", n)
        chk.maximum("max_spread_n%s" % ("_above_5000" if n > 5000 else "_to_5000"), hi - lo)
        if hi - lo > TOL:
            mid = sorted(ans.values())[len(ans) // 2]
            worst = max(ans, key=lambda q: abs(ans[q] - mid))
            chk.violation("disagreement:" + worst, {"case": f, "n": n, "kind": kind, "answers (~ = reflected)": ans, "b": list(b[:12]), "B": list(B[:12])},
                          {"kind": "agree", "calls": [[fn, [float(v).hex() for v in x], [float(v).hex() for v in y]] for fn, x, y in calls], "expected": "equal"})

    numeric.run(chk, d, items, body)
    chk.assumptions = ["closed forms: Daniels, Smirnov, Marsaglia-Tsang-Wang in 80-bit arithmetic", "agreement judged at 1e-9 absolute"]
    return chk.finish(1500, 700)
