"""C02/C03: one-sided non-crossing probabilities against the exact reference and closed forms."""
import math
import numpy as np
import common, gen, numeric
from closed import daniels, smirnov

RULE = ("A case is one one-sided boundary evaluated by one entry point (lower list b or upper list B) and compared with an 80-bit positive-term "
        "reference or a closed form (Daniels, Smirnov); non-trivial when the exact probability is strictly between 1e-250 and 1-1e-12; "
        "distinct by (entry point, all boundary bits).")


def onesided(chk, fb, fB, big, sweep, closed_n):
    d = common.build("prod")
    common.build_oracle()
    k = 12 if chk.thorough else 2
    fams = list(gen.FAMILIES)
    items = []
    for n in closed_n:
        items += [(n, "daniels", a) for a in (0.15, 0.5, 0.85)] + [(n, "smirnov", c) for c in (0.3, 0.7, 1.3)]
    for n in big:
        items += [(n, f, i) for f in ("coarse", "few", "tube", "remote") for i in range(k)]
    for n in sweep:
        items += [(n, f, i) for f in ("coarse", "few", "grid") for i in range(k)]
    rng = chk.rng(1)
    for i in range(14 * k):
        n = int(np.exp(rng.uniform(np.log(300), np.log(big[0]))))
        items.append((n, (gen.LIVELY + ["remote"] * 2)[i % (len(gen.LIVELY) + 2)], i))
    items.sort(key=lambda it: -it[0])
    for i in range(400 * k):
        items.append((int(rng.integers(41, 300)), fams[i % len(fams)], i))
    for i in range(4000 * k):
        items.append((int(rng.integers(1, 41)), fams[i % len(fams)], i))
    for n in (1, 2, 3, 4, 5, 8, 9, 10, 15, 16, 17, 18, 24, 25, 26, 35, 36, 37, 49, 64, 81, 100, 130):
        items += [(n, "single", i) for i in range(n)]
    items.append((0, "empty", 0))
    for n in closed_n:
        items.insert(0, (n, "vacuous-ish", 0))

    def body(j, it):
        n, f, i = it
        i_ = np.arange(1, n + 1)
        chk.maximum("largest_n", n)
        chk.count("family_" + f)
        if f == "empty":
            j.check(fb, [], [], f)
            j.check(fB, [], [], f)
            return
        if f in ("daniels", "smirnov"):
            if f == "daniels":
                b, p = i * i_ / n, daniels(i)
            else:
                b, p = np.clip(i_ / n - i / math.sqrt(n), 0, 1), smirnov(n, i / math.sqrt(n))
            b = gen.mono(b)
            j.check(fb, b, [], f, p, numeric.tol(n))
            j.check(fB, [], gen.mono(1 - b[::-1]), f, p, numeric.tol(n))
            return
        if f == "vacuous-ish":      # all zero, all one, one value throughout
            for x in (0.0, 0.3 / n, 1e-9):
                p = (np.longdouble(1) - np.longdouble(x)) ** n
                j.check(fb, np.full(n, x), [], f, p, numeric.tol(n))
                j.check(fB, [], np.full(n, 1 - x), f, np.longdouble(1 - x) ** n, numeric.tol(n))
            return
        r = chk.rng(2, n, sum(map(ord, f)), i)
        b, B = gen.single(n, i, r) if f == "single" else gen.FAMILIES[f](n, r)
        j.check(fb, b, [], f)
        j.check(fB, [], B, f)

    numeric.run(chk, d, items, body)
    chk.assumptions = ["reference model: harness/oracle.cc, itself cross-checked against exact rational arithmetic by setup_cmd",
                       "tolerance 1e-10 absolute up to n=5000, 1e-9 beyond (measured error of the unchanged code: below 4e-12 and 4e-11)"]
    return chk.finish(6000, 2500)


def main():
    chk = common.Check("C02", RULE)
    t = chk.thorough
    return onesided(chk, "b.new", "B.new", [2500, 2048, 2047, 1500, 1025, 1024, 1023] + ([5000, 4000] if t else []),
                    sorted(set(list(range(120, 136)) + list(range(254, 260)) + [400, 511, 512, 1020, 1021, 1022] + (list(range(1018, 1030)) if t else []))),
                    [50000, 17000, 16200, 10000, 5000, 2049, 2048, 2047, 1023, 300] + ([30000, 20000] if t else []))
