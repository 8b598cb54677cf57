"""C01: two-sided non-crossing probability, both convolution modes, against the exact reference."""
import numpy as np
from scipy.stats import binom
import common, gen, numeric

RULE = ("A case is one boundary pair of one generator family evaluated by one algorithm and compared with an 80-bit positive-term reference; "
        "non-trivial when the exact probability is strictly between 1e-250 and 1-1e-12; distinct by (algorithm, all boundary bits).")


def levels(n, x, y, a, c):
    """Pr[at most a of n uniforms below x, at least c of them below y]"""
    k = np.arange(0, min(a, n) + 1)
    return float((binom.pmf(k, n, x) * binom.sf(c - 1 - k, n - k, (y - x) / (1 - x))).sum())


def main():
    chk = common.Check("C01", RULE)
    d = common.build("prod")
    common.build_oracle()
    k = 60 if chk.thorough else 10
    fams = list(gen.FAMILIES)
    items = []
    # big first, so that the pool stays busy
    for n in ([2500, 2049, 1500, 2047, 2048, 1024, 1025, 1100, 3000] + ([5000, 4097, 3500] if chk.thorough else [])):
        for f in ("coarse", "few"):
            items += [(n, f, i, ("2.fft",)) for i in range(2 * k)]
    for n in (1000, 1700):
        items += [(n, f, i, ("2.fft",)) for f in ("ks", "tube", "cluster", "remote") for i in range(k)]
    items += [(900, f, i, ("2.ks", "2.fft")) for f in ("coarse", "tube") for i in range(k)]
    for n in sorted(set(list(range(118, 140)) + list(range(250, 262)) + [511, 512, 513] + list(range(1018, 1031)) + (list(range(2040, 2056)) if chk.thorough else []))):
        fn = numeric.FN_TWO if n < 300 else ("2.fft",)
        items += [(n, f, i, fn) for f in ("coarse", "few", "edge") for i in range(k)]
    rng = chk.rng(1)
    for i in range(12 * k):
        n = int(np.exp(rng.uniform(np.log(300), np.log(5000))))
        items.append((n, ("few", "coarse", "ends", "halves", "multiscale", "tube", "ks", "bj", "remote")[i % 9], i, numeric.FN_TWO if n < 600 else ("2.fft",)))
    items.sort(key=lambda it: -it[0])
    for i in range(300 * k):
        items.append((int(rng.integers(41, 300)), fams[i % len(fams)], i, numeric.FN_TWO))
    for i in range(3500 * k):
        items.append((int(rng.integers(1, 41)), fams[i % len(fams)], i, numeric.FN_TWO))
    for n in (1, 2, 3, 7, 16, 33) + ((64, 150) if chk.thorough else ()):
        items += [(n, "single", i, numeric.FN_TWO) for i in range(n)]
    items.append((0, "empty", 0, numeric.FN_TWO))
    # hundreds of thousands of states: affordable when there are few distinct values
    huge = [32767, 32768, 32769, 46340, 46341, 46342, 65535, 65536, 65537, 100000, 131072, 200000, 300000] + [int(np.exp(rng.uniform(np.log(5000), np.log(250000)))) for _ in range(4 * k)]
    items = [(n, "levels", i, ("2.fft",)) for i, n in enumerate(sorted(huge, reverse=True))] + items

    def body(j, it):
        n, f, i, fns = it
        r = chk.rng(2, n, sum(map(ord, f)), i)
        if f == "empty":
            for fn in fns:
                j.check(fn, [], [], f)
            return
        if f == "levels":
            x, y = np.sort(r.uniform(0.02, 0.98, 2))
            z = 10.0 ** r.uniform(-1.5, 0.5, 2) * r.choice([-1, 1, 1], 2)
            a, c = int(n * x + z[0] * np.sqrt(n * x * (1 - x))), int(n * y - z[1] * np.sqrt(n * y * (1 - y)))
            b, B = np.zeros(n), np.ones(n)
            b[max(0, a):], B[:max(0, c)] = x, y
            for b_, B_, p in ((b, B, levels(n, x, y, a, c)), (b, np.ones(n), levels(n, x, y, a, 0)), (np.zeros(n), B, levels(n, x, y, n, c))):
                j.check("2.fft", b_, B_, f, np.longdouble(p), 1e-9 * max(1, n / 40000) if n > 5000 else None)
            chk.count("family_levels")
            chk.maximum("largest_n", n)
            return
        if f == "single":
            b1, B1 = gen.single(n, i, r)
            pairs = [(b1, np.ones(n)), (np.zeros(n), B1)]
        else:
            b, B = gen.FAMILIES[f](n, r)
            pairs = [(b, B)]
            if i % 3 == 1 or n > 900:
                pairs += [(b, np.ones(n)), (np.zeros(n), B)]
        for b, B in pairs:
            p = j.oracle("E", n, b, B)
            for fn in fns:
                j.check(fn, b, B, f, p)
        chk.count("family_" + f)
        chk.maximum("largest_n", n)

    numeric.run(chk, d, items, body)
    chk.assumptions = ["reference model: harness/oracle.cc, itself cross-checked against exact rational arithmetic by setup_cmd",
                       "tolerance 1e-10 absolute (measured error of the unchanged code: below 1e-11), 1e-9 above n = 5000, growing with n above 40000 (below 5e-10 at 300000)"]
    return chk.finish(5000, 2000)
