"""C09/C10: the two Monte-Carlo modes estimate the true probability with binomial error only."""
import math, os, time
import numpy as np
import common, gen, cli

RULE = ("A case is one configuration (lists, number of simulations) of one mode, run with the clock set to seconds derived from the seed; the hits of its runs are compared with the exact probability "
        "(80-bit reference, Poisson or binomial order statistics) by a z-test at 6.5 sigma, and configurations with many small runs also by a dispersion test; certain and impossible events must print exactly 1 and 0. "
        "Non-trivial when 0 < p < 1; distinct by (lists, simulations, seconds).")
Z = 6.5


def onesided_single(n, k, rng, side):
    b, B = gen.single(n, k, rng)
    return (b, []) if side else ([], B)


def single_probability(mode, n, b, B):
    """one constraint: i values are below x, the rest (b) or one more value at least (B) has to ..."""
    from scipy.stats import binom, poisson
    if len(b):
        i, x = int(np.count_nonzero(np.asarray(b) == 0)), float(b[-1])      # at most i values before x
        if mode == "ecdf":
            return float(binom.cdf(i, n, x))
        k = np.arange(i + 1)
        return float(np.sum(poisson.pmf(k, n * x) * poisson.cdf(n - k, n * (1 - x))))
    i, x = int(np.count_nonzero(np.asarray(B) < 1)), float(B[0])            # at least i values up to x
    if mode == "ecdf":
        return float(binom.sf(i - 1, n, x))
    k = np.arange(i, i + 20000) if n * x < i + 10000 else np.arange(i, int(n * x + 20000))
    return float(np.sum(poisson.pmf(k, n * x) * poisson.sf(n - 1 - k, n * (1 - x))))


def run_check(chk, mode):
    d = common.build("prod", driver=False)
    common.build_oracle()
    fake = common.build_so("faketime")
    prog = os.path.join(d, "bin", "crossprob_mc")
    k = 10 if chk.thorough else 1
    P = "P" if mode == "poisson" else "E"
    rng = chk.rng(1)
    items = []
    # (kind, b, B, sims per run, runs)
    items.append(("above-2^31", [], [0.02], 2200000000, 1))
    if chk.thorough:
        items.append(("above-2^31", [], [0.02], 4400000000, 1))
    # errors purely binomial late in a long run as well
    items.append(("many-runs", [], [0.5], 5000000, 250))
    items.append(("large-count", [], [0.1], 40000000, 1))
    items.append(("large-count", [], [0.9], 40000000, 1))
    items.append(("large-count", [0.7], [], 50000000, 1))
    # a relative bias of some 1e-4 in one waiting time or in one comparison shows only at this many simulations
    for n, m in ((1, 300000000), (2, 120000000), (3, 100000000), (6, 50000000), (15, 20000000), (40, 8000000)):
        for i in sorted({0, n // 2, n - 1}):
            b, B = onesided_single(n, i, rng, True), onesided_single(n, i, rng, False)
            items.append(("fine-bias", b[0], [], m * (4 if chk.thorough else 1), 1))
            items.append(("fine-bias", [], B[1], m * (4 if chk.thorough else 1), 1))
    # narrow cells anywhere: a value that is lost, moved or rounded shows there
    for w in (1e-4, 1e-5, 1e-6):
        for x in (0.0, 1 - w, 0.5, 0.25 - w / 2, float(rng.random()), float(rng.random()), 1 / 3):
            items.append(("narrow-cell", [x], [min(1.0, x + w)], int(max(2e7, 400 / w)) if w > 1e-6 else 100000000, 1))
    for n in (2, 3, 8, 40):
        for w in (1e-3, 3e-5):
            for i in (0, n - 1):
                b, B = np.zeros(n), np.ones(n)
                b[i:], B[:i + 1] = (1 - w, 1.0) if i else (0.0, w)
                items.append(("narrow-cell", b, B, 2 * int(min(3e7, 3e8 / n)), 1))
    if mode == "ecdf":
        items.append(("large-certain", [0.0], [1.0], 60000000, 1))
    items.append(("large-impossible", [], [0.0], 60000000, 1))
    # the largest sizes: enough simulations to see a per-cent error
    for n in (20000, 5000, 3000, 2200, 2148, 2049, 1000, 300):
        m = max(2000, int(4e7 / n)) * (3 if chk.thorough else 1)
        for i in {n // 2, n // 50, n - n // 50, 0, 1, n - 2, n - 1} | set(rng.integers(0, n, 2).tolist()):
            b, B = onesided_single(n, i, rng, True), onesided_single(n, i, rng, False)
            items.append(("big-n", b[0], [], m // 2, 2))
            items.append(("big-n", [], B[1], m // 2, 2))
        bb, BB = gen.ks(n, rng)
        items.append(("big-n", bb, BB, m // 2, 2))
        items.append(("big-n", bb, BB[:n // 2], m // 2, 2))
    # sizes beyond the reach of the reference, one constraint: the probability is known in closed form
    for n in (70000, 150000):
        for i in (0, 40, n // 2, n - 40, n - 1):
            x = (i + 0.7) / n
            items.append(("huge-n", np.concatenate([np.zeros(i), np.full(n - i, x)]), [], 2000 * (3 if chk.thorough else 1), 1))
            items.append(("huge-n", [], np.concatenate([np.full(i + 1, x), np.ones(n - i - 1)]), 2000 * (3 if chk.thorough else 1), 1))
    # every index of small samples, either side
    for n in (1, 2, 3, 4, 5, 6, 8, 10):
        for i in range(n):
            for side in (True, False):
                b, B = onesided_single(n, i, rng, side)
                items.append(("single-index", b, B, 100000 * k, 2))
    for n in (17, 30, 64, 100):
        for i in sorted(set([0, 1, n // 2, n - 2, n - 1]) | set(rng.integers(0, n, 4).tolist())):
            for side in (True, False):
                b, B = onesided_single(n, i, rng, side)
                items.append(("single-index", b, B, 40000 * k, 2))
    for i in range(160 * k):
        n = int(rng.choice([1, 2, 3, 4, 6, 9, 14, 25, 60, 128]))
        b, B = gen.FAMILIES[gen.LIVELY[i % len(gen.LIVELY)]](n, rng)
        z = int(rng.integers(5))
        if z == 0:
            b = []
        elif z == 1:
            B = []
        elif z == 2:
            B = B[:int(rng.integers(0, n + 1))]
        items.append(("family", b, B, max(20000, 1000000 // n), 2))
    for i in range(60 * k):         # the same event known exactly: both lists at once, loose enough to be likely
        n = int(rng.integers(2, 12))
        x = np.sort(rng.random(n))
        w = rng.uniform(0.1, 0.5)
        items.append(("two-sided", np.clip(gen.mono(x - w), 0, 1), np.clip(x + w, 0, 1), 200000, 2))
    # many tiny runs: the very first numbers after seeding, and the dispersion between runs
    for sims, runs in ((1, 600), (2, 300), (3, 300), (25, 300), (400, 300), (3000, 200)):
        for z in range(2 if not chk.thorough else 6):
            n = int(rng.choice([1, 2, 3, 7]))
            i = int(rng.integers(n))
            b, B = onesided_single(n, i, rng, bool(z % 2))
            items.append(("many-runs", b, B, sims, runs))
    # exact ones and zeros, by simulation (no shortcut applies), at awkward numbers of simulations
    counts = list(range(1, 21)) + [31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 10007, 65535, 65536, 65537, 100003, 1000003]
    for c in counts:
        n = int(rng.choice([1, 2, 5, 20])) if c < 200000 else 1
        items.append(("impossible", [], [0.0] * n, c, 1))
        B = np.ones(n)
        b = np.zeros(n)
        if mode == "ecdf":
            items.append(("certain", b, B, c, 1))
            items.append(("certain", b, [], c, 1))
            items.append(("certain", [], B[:max(1, n - 1)], c, 1))
            b2 = b.copy()
            b2[-1] = 1.0
            items.append(("impossible", b2, [], c, 1))
            items.append(("impossible", b2, B, c, 1))
            if n > 1:
                items.append(("impossible", np.full(n, 0.7), np.concatenate([[0.3], B[1:]]), c, 1))
        else:
            items.append(("impossible", np.zeros(n), np.ones(n + 1), c, 1))
            items.append(("impossible", np.zeros(n), [0.0] * n, c, 1))
            items.append(("impossible", np.ones(n), B, c, 1))
    items.append(("certain", [], [], 10, 1))
    if mode == "ecdf":
        items += [("certain", np.zeros(n), np.ones(n), 300, 1) for n in (100, 1000, 4000, 20000)] + [("certain", np.zeros(200000), np.ones(200000), 1000, 1)]
    base = 1500000000 + int(chk.rng(9).integers(0, 2 * 10 ** 8))
    order = list(enumerate(items))

    def body(o, it):
        idx, (kind, b, B, sims, runs) = it
        n = max(len(b), len(B))
        path = cli.write(cli.bounds(b, B))
        p = single_probability(mode, n, b, B) if kind == "huge-n" else float(o(P, n, b, B)) if n else 1.0
        what = {"case": kind, "n": n, "b": list(map(float, b[:8])), "B": list(map(float, B[:8])), "lengths": [len(b), len(B)], "sims": sims, "runs": runs, "p": p}
        rep = lambda t: {"kind": "cli", "argv": ["crossprob_mc", mode], "tail": [str(sims)], "file": cli.bounds(b, B), "env": {"FAKETIME": str(t)}, "expected": p}
        hits, var, vals = 0.0, 0.0, []
        if kind == "above-2^31":
            t0 = time.time()
            cli.run([prog, mode, path, "100000000"], timeout=300)
            limit, retry = min(600.0 if not chk.thorough else 3600.0, 60 + 5 * (sims / 1e8) * (time.time() - t0)), False
        else:
            limit, retry = 120 if sims * (n + 1) < 3e8 else 300, True
        for j in range(runs):
            t = base + 100000 * idx + (j if kind == "many-runs" else 7919 * j)
            r = cli.run([prog, mode, path, str(sims)], env={"LD_PRELOAD": fake, "FAKETIME": str(t)}, timeout=limit, retry=retry)
            v = r.value
            if v is None:
                chk.violation("%s:%s:%s" % (mode, kind, "hang" if r.hang else "no-answer"), dict(what, run=r.brief()), rep(t))
                break
            vals.append(v)
            chk.observe((b if isinstance(b, tuple) else np.asarray(b, float).tobytes(), np.asarray(B, float).tobytes(), sims, t) if 0 < p < 1 else None, dict(what, second=t, printed=v))
            # a fraction of the requested number: v*sims is an integer up to the six printed digits
            if sims <= 20000:
                h = v * sims
                if abs(h - round(h)) > 6e-6 * h + 1e-9:
                    chk.violation("%s:%s:not-a-fraction-of-sims" % (mode, kind), dict(what, printed=v), rep(t))
                v = round(h) / sims
            hits += v * sims
            var += (v - p) ** 2
        os.unlink(path)
        chk.count("kind_" + kind)
        chk.count("simulations", sims * len(vals))
        chk.maximum("largest_n", n)
        if len(vals) < runs:
            return
        if kind in ("certain", "large-certain"):
            if any(v != 1.0 for v in vals):
                chk.violation("%s:%s" % (mode, kind), dict(what, printed=vals), rep(base + 100000 * idx))
            return
        if kind in ("impossible", "large-impossible"):
            if any(v != 0.0 for v in vals):
                chk.violation("%s:%s" % (mode, kind), dict(what, printed=vals), rep(base + 100000 * idx))
            return
        N = sims * runs
        sd = math.sqrt(N * p * (1 - p))
        rounding = 5.1e-6 * 10 ** math.floor(math.log10(max(p, 1e-300))) * N if sims > 20000 else 1e-6
        # small expected counts are not normal: the bound below is conservative for them (Bernstein)
        bound = Z * sd + Z * Z / 3 + rounding
        z = abs(hits - N * p) / bound * Z
        chk.maximum("max_z", z)
        chk.count("tests")
        if z > Z:
            chk.violation("%s:%s:biased" % (mode, kind), dict(what, estimate=hits / N, z=z), rep(base + 100000 * idx))
        if runs >= 100:
            x = sims * var / (p * (1 - p))               # ~ chi2(runs) when 0/1 outcomes are independent
            ex = runs * (2 + (1 / (p * (1 - p)) - 6) / sims)     # its exact variance for binomial counts
            zz = (x - runs) / math.sqrt(max(ex, runs * 0.02))
            chk.maximum("max_dispersion_z", abs(zz))
            if zz > 7 or zz < -6.5:
                chk.violation("%s:%s:dispersion" % (mode, kind), dict(what, dispersion_z=zz), rep(base + 100000 * idx))

    def make():
        o = common.Oracle()
        return (lambda it: body(o, it)), o.s.close
    common.parallel(chk, order, make)
    chk.assumptions = ["the clock is replaced (LD_PRELOAD) so that the run is reproducible", "z-tests at 6.5 sigma: a bias below about 6.5*sqrt(p(1-p)/N) with N up to 2.3e9 simulations (typically 2e5-1e6) is not seen"]
    return chk.finish(3000, 2000)
