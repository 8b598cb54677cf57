"""C17: every answer is a probability, degenerate events are exact, and answers respond monotonically to the boundary."""
import math
import numpy as np
from scipy.special import betainc
import common, gen, numeric

RULE = ("A case is one judged library call: a chain of boundaries each at least as strict as the previous one (answers must not increase), a two-sided call together with its two one-sided ones (Frechet bounds), a degenerate boundary (answer 1, 0 or a "
        "binomial tail) or an extreme one (finite, inside [0,1]). No reference is involved except the incomplete beta function. Distinct by (entry point, all bits); non-trivial when the answer lies in (1e-12, 1-1e-12).")
LIB = ("b.new", "B.new", "b.mns", "B.mns", "2.ks", "2.fft")
EPS = 1e-9
TINY = [5e-324, 2.2e-308, 1e-300, 1e-200, 1e-100, 1e-20, 2.0 ** -53, 1e-12]


def extreme(n, r):
    """Valid but extreme: huge jumps, denormals, neighbours of 0 and 1, long runs of one value."""
    z = int(r.integers(9))
    pts = np.array([0.0, 1.0] + TINY + [1 - 2.0 ** -53, 1 - 1e-12, 1 - 1e-6, 0.5, np.nextafter(0.5, 0), np.nextafter(0.5, 1), 1e-6])
    if z == 0:
        b, B = np.sort(r.choice(pts, n)), np.sort(r.choice(pts, n))
        return np.minimum(b, B), np.maximum(b, B)
    if z == 1:
        return np.full(n, float(r.choice(TINY))), np.full(n, 1 - 2.0 ** -53)
    if z == 2:      # everything in one ulp
        x = float(r.random())
        return np.full(n, x), np.full(n, np.nextafter(x, 1))
    if z == 3:
        k = int(r.integers(0, n + 1))
        return np.concatenate([np.zeros(k), np.full(n - k, 1 - 2.0 ** -53)]), np.ones(n)
    if z == 4:
        k = int(r.integers(0, n + 1))
        return np.zeros(n), np.concatenate([np.full(k, float(r.choice(TINY))), np.ones(n - k)])
    if z == 5:      # geometric cascade
        b = np.sort(10.0 ** r.uniform(-320, 0, n))
        return b, np.minimum(1, np.sort(b * 10 ** r.uniform(0, 3)))
    if z == 6:
        B = 1 - np.sort(10.0 ** r.uniform(-17, 0, n))[::-1]
        return np.maximum(0, B - 10 ** r.uniform(-5, 0)), np.sort(B)
    if z == 7:      # subnormal staircase
        return np.arange(n) * 5e-324, np.minimum(1.0, np.arange(1, n + 1) / n + 0.1)
    b = np.zeros(n)
    b[-1] = 1.0
    return b, np.ones(n)


def main():
    chk = common.Check("C17", RULE)
    d = common.build("prod")
    k = 30 if chk.thorough else 3
    names = list(gen.FAMILIES)
    rng = chk.rng(1)
    items = []
    for n in ((20000, 8000, 4000) if not chk.thorough else (40000, 20000, 12000, 8000, 4000)):
        for fn in LIB:
            if n > {"2.ks": 800, "2.fft": 4000, "b.mns": 4000, "B.mns": 4000}.get(fn, 10 ** 9):
                continue
            for what in ("vacuous", "binomial", "impossible"):
                items.append((what, n, fn, 0))
    for n in (2500, 2048, 1100, 700):
        items += [("chain", n, "coarse", i) for i in range(k)] + [("frechet", n, "coarse", i) for i in range(k)]
        for fn in LIB:
            if fn != "2.ks" or n < 1000:
                items += [(what, n, fn, i) for what in ("vacuous", "binomial", "impossible") for i in range(2 * k)]
    for n in list(range(1, 20)) + [31, 32, 64, 100, 127, 128, 129, 200, 255, 300]:
        for fn in LIB:
            items += [(what, n, fn, i) for what in ("vacuous", "binomial", "impossible") for i in range((n if n < 40 else 6) * k if what == "binomial" else 2)]
    for i in range(350 * k):
        items.append(("chain", int(rng.choice([1, 2, 3, 5, 10, 30, 60, 130, 250])), names[i % len(names)], i))
        items.append(("frechet", int(rng.choice([1, 2, 3, 5, 10, 30, 60, 130, 250])), names[(i * 5) % len(names)], i))
    for i in range(1500 * k):
        items.append(("extreme", int(rng.choice([1, 2, 3, 4, 8, 20, 50, 129, 170, 300])), "", i))

    def args_for(fn, b, B):
        return (b, []) if fn[0] == "b" else ([], B) if fn[0] == "B" else (b, B)

    def body(j, it):
        what, n, f, i = it
        r = chk.rng(2, n, sum(map(ord, f)), i, sum(map(ord, what)))

        def ask(fn, b, B, label):
            x, y = args_for(fn, b, B)
            v = j.value(fn, x, y, label)
            chk.count("calls_" + fn)
            chk.observe((fn, np.asarray(x, float).tobytes(), np.asarray(y, float).tobytes()) if v is not None and 1e-12 < v < 1 - 1e-12 else None,
                        {"fn": fn, "case": label, "n": n, "b": list(map(float, x[:5])), "B": list(map(float, y[:5])), "got": v})
            if v is not None and not -EPS <= v <= 1 + EPS:
                bad(fn, "not-a-probability", x, y, v, "in [0,1]", label)
                return None
            if v is not None:
                chk.maximum("max_excess_over_[0,1]", max(-v, v - 1, 0.0))
            return v

        def bad(fn, kind, b, B, got, want, label):
            chk.violation("%s:%s" % (fn, kind), {"case": label, "n": n, "b": list(map(float, b[:12])), "B": list(map(float, B[:12])), "got": got, "want": want}, j.replay(fn, b, B, want))

        def exactly(fn, b, B, p, label, tol=EPS):
            v = ask(fn, b, B, label)
            if v is not None:
                chk.count("degenerate_" + label.split(" ")[0])
                chk.maximum("max_degenerate_error", abs(v - p))
                if not abs(v - p) <= tol:
                    bad(fn, label.split(" ")[0], *args_for(fn, b, B), v, p, label)

        if what == "vacuous":
            exactly(f, np.zeros(n), np.ones(n), 1.0, "vacuous")
            exactly(f, np.full(n, 5e-324), np.full(n, 1.0), 1.0, "vacuous subnormal")
        elif what == "impossible":
            kk = [0, n - 1, int(r.integers(n))][int(r.integers(3))]
            if f[0] != "B":
                b = np.zeros(n)
                b[kk:] = 1.0
                exactly(f, b, np.ones(n), 0.0, "impossible b=1")
            if f[0] != "b":
                B = np.ones(n)
                B[:kk + 1] = 0.0
                exactly(f, np.zeros(n), B, 0.0, "impossible B=0")
            if f[0] == "2":
                x = float(r.random())
                b, B = np.zeros(n), np.ones(n)
                b[kk:], B[:kk + 1] = x, x
                exactly(f, b, B, 0.0, "impossible b=B")
                if x > 0:
                    B[:kk + 1] = x * float(r.random())
                    exactly(f, b, B, 0.0, "impossible b>B")
        elif what == "binomial":
            kk = i % n if i < n else int(r.integers(n))
            m = (kk + 1) / (n + 1)
            x = float(min(1, max(0, m + r.normal() * 2 * math.sqrt(m * (1 - m) / n)))) if r.random() < 0.8 else float(r.random())
            if f[0] != "B":
                b = np.zeros(n)
                b[kk:] = x              # X_(kk+1) >= x, implied by it for the later ones
                # Pr[X_(kk+1) >= x] = 1 - I_x(kk+1, n-kk)
                exactly(f, b, np.ones(n), float(betainc(n - kk, kk + 1, 1 - x)), "binomial b")
            if f[0] != "b":
                B = np.ones(n)
                B[:kk + 1] = x
                exactly(f, np.zeros(n), B, float(betainc(kk + 1, n - kk, x)), "binomial B")
        elif what == "extreme":
            b, B = extreme(n, r)
            for fn in LIB:
                ask(fn, b, B, "extreme")
        elif what == "frechet":
            b, B = gen.FAMILIES[f](n, r)
            pb, pB = [], []
            for fn in ("b.new", "b.mns"):
                if fn.endswith("new") or n <= 1200:
                    pb.append(ask(fn, b, B, "frechet"))
            for fn in ("B.new", "B.mns"):
                if fn.endswith("new") or n <= 1200:
                    pB.append(ask(fn, b, B, "frechet"))
            for fn in ("2.ks", "2.fft"):
                if fn == "2.ks" and n > 700:
                    continue
                v = ask(fn, b, B, "frechet")
                for x in pb:
                    for y in pB:
                        if None in (v, x, y):
                            continue
                        chk.count("frechet_comparisons")
                        if v > min(x, y) + EPS or v < x + y - 1 - EPS:
                            bad(fn, "frechet-bounds", b, B, v, [x, y], f)
        elif what == "chain":
            b, B = gen.FAMILIES[f](n, r)
            steps = 7
            bs, Bs = [b.copy()], [B.copy()]
            for s in range(steps - 1):
                b, B = bs[-1].copy(), Bs[-1].copy()
                if s != steps - 2:
                    z = int(r.integers(4))
                    kk = int(r.integers(n))
                    dlt = float(r.choice([1e-15, 1e-6, 0.1 / math.sqrt(n), 1 / math.sqrt(n), 0.3]))
                    if z != 1:          # raise b: one element, a run, or all
                        hi = n if r.random() < 0.4 else min(n, kk + 1 + int(r.integers(0, 4)))
                        b[kk:hi] = np.minimum(1, b[kk:hi] + dlt)
                        b = np.maximum.accumulate(b)
                    if z != 0:
                        lo = 0 if r.random() < 0.4 else max(0, kk - int(r.integers(0, 4)))
                        B[lo:kk + 1] = np.maximum(0, B[lo:kk + 1] - dlt)
                        B = np.minimum.accumulate(B[::-1])[::-1]
                else:                   # a last, coarse step
                    b, B = np.minimum(1, b + 0.05), np.maximum(0, B - 0.05)
                bs.append(b)
                Bs.append(B)
            for fn in LIB:
                if (fn == "2.ks" and n > 700) or (fn.endswith("mns") and n > 1200):
                    continue
                prev, pbt = None, None
                for s in range(steps):
                    key = (bs[s].tobytes() if fn[0] != "B" else b"") + (Bs[s].tobytes() if fn[0] != "b" else b"")
                    if key == pbt:
                        continue
                    v = ask(fn, bs[s], Bs[s], "chain")
                    if v is not None and prev is not None:
                        chk.count("monotone_comparisons")
                        if prev - v > 1e-9:
                            chk.count("strict_decreases")
                        chk.maximum("max_increase_of_a_stricter_event", v - prev)
                        # the direct mode is relatively accurate, so it must be monotone relatively too
                        if v > prev + (EPS if fn != "2.ks" else 1e-8 * prev + 1e-280):
                            bad(fn, "not-monotone", *args_for(fn, bs[s], Bs[s]), v, {"at most the answer for the weaker boundary": prev, "b": list(map(float, bs[s - 1][:12])), "B": list(map(float, Bs[s - 1][:12]))}, f)
                    prev, pbt = v, key

    numeric.run(chk, d, items, body)
    chk.assumptions = ["EPS = 1e-9, relative 1e-8 for monotonicity of the direct mode"]
    return chk.finish(6000, 3000)
