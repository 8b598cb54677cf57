"""C04: the direct two-sided mode keeps relative accuracy for tiny probabilities (library and command line)."""
import math, os
import numpy as np
import common, gen, numeric, cli

RULE = ("A case is one boundary pair whose exact probability lies between 1e-200 and 0.5, evaluated by the direct mode (library call, or the command "
        "ecdf2-ks2001 on a file) and compared relatively with an 80-bit positive-term reference; non-trivial when that probability is below 1e-3; "
        "distinct by (route, all boundary bits).")
REL = 1e-9
REL_CLI = 5.1e-6        # six significant digits


def narrow(n, rng):
    return gen.tube(n, rng, c=rng.uniform(0.02, 0.9, 2))


def cells(n, rng):
    """Disjoint or touching cells around a uniform grid: probability about n! * prod(width)."""
    e = np.arange(n + 1) / n
    w = rng.choice([1.0, 0.999, 0.5, 0.1])
    m = (e[:-1] + e[1:]) / 2
    return m - w * 0.5 / n, np.minimum(1, m + w * 0.5 / n)


def faraway(n, rng):
    """One-sided events deep in the tail: a crossing many standard deviations away."""
    i = np.arange(1, n + 1)
    d = rng.uniform(1.5, 6) / math.sqrt(n)
    b = np.clip(i / n + d * rng.choice([0.3, 1.0]), 0, 1 - 1e-3)
    b = gen.mono(np.where(rng.random(n) < rng.choice([0.05, 1.0]), b, 0))
    return (b, np.ones(n)) if rng.random() < 0.5 else (np.zeros(n), gen.mono(1 - b[::-1]))


def near_edges(n, rng):
    """All points forced near one end of the interval."""
    w = 10.0 ** -rng.uniform(0.3, min(30, 190.0 / n))
    B = np.sort(w * (0.5 + 0.5 * rng.random(n)))
    return np.zeros(n), B


def early(n, rng):
    """A few points must come very early (or late); the others are free or in a wide tube."""
    k = int(rng.integers(1, min(n, 40) + 1))
    w = 10.0 ** -rng.uniform(0.3, min(12, 100.0 / k)) / n
    B = np.ones(n)
    if rng.random() < 0.7:
        q = np.arange(1, n + 1) / (n + 1.0)
        B = np.minimum(1, q + rng.uniform(2, 5) / math.sqrt(n))
    B[:k] = np.minimum(B[:k], w * (1 + np.arange(k) * rng.choice([0, 0.3])))
    b = np.zeros(n)
    if rng.random() < 0.5:
        b[k:] = np.maximum(0, np.arange(k + 1, n + 1) / (n + 1.0) - rng.uniform(2, 5) / math.sqrt(n))
    b, B = gen.mono(b), gen.mono(B)
    return (b, B) if rng.random() < 0.5 else (gen.mono(1 - B[::-1]), gen.mono(1 - b[::-1]))


FAMS = {f.__name__: f for f in (narrow, cells, faraway, near_edges, early)}
FAMS.update({k: gen.FAMILIES[k] for k in ("unif2", "around_sample", "chained", "cluster", "bj", "grid", "ends", "multiscale")})


def main():
    chk = common.Check("C04", RULE)
    d = common.build("prod")
    common.build_oracle()
    k = 20 if chk.thorough else 3
    names = list(FAMS)
    rng = chk.rng(1)
    big = (2600, 2300, 2100, 2049, 2048, 2047, 1800) + ((6000, 5000, 4097, 3000) if chk.thorough else ())
    items = [(n, f, i, "lib") for n in sorted(big, reverse=True) for f in ("narrow", "early", "cells", "faraway") for i in range(k if f != "faraway" or n < 2050 else 0)]
    items += [(n, f, i, r) for n in (1300, 1100, 1025, 800, 600, 513, 512, 511) for f in ("narrow", "faraway", "cells", "early") for i in range(k) for r in ("lib",)]
    items += [(n, f, i, "cli") for n in (1100, 700, 513, 260, 257, 256, 255, 200, 150, 131, 130, 129, 128, 127, 126, 100) for f in ("narrow", "faraway", "cells", "around_sample") for i in range(k)]
    items += [(int(rng.integers(100, 400)), names[i % len(names)], i, "lib") for i in range(800 * k)]
    items += [(int(rng.integers(1, 100)), names[i % len(names)], i, "lib") for i in range(6000 * k)]
    items += [(int(rng.integers(1, 60)), names[i % len(names)], i, "cli") for i in range(400 * k)]
    prog = os.path.join(d, "bin", "crossprob")

    def body(j, it):
        n, f, i, route = it
        r = chk.rng(2, n, sum(map(ord, f)), i)
        b, B = FAMS[f](n, r)
        b, B = gen.mono(b), gen.mono(B)
        p = j.oracle("T", n, b, B)
        chk.count("generated")
        if not (1e-200 < float(p) < 0.5):
            return
        key = (route, b.tobytes(), B.tobytes()) if float(p) < 1e-3 else None
        chk.count("decade_%s" % ("below_1e-100" if p < 1e-100 else "1e-100_1e-30" if p < 1e-30 else "1e-30_1e-9" if p < 1e-9 else "above_1e-9"))
        chk.maximum("largest_n", n)
        samp = lambda: {"route": route, "case": f, "n": n, "b": list(map(float, b[:5])), "B": list(map(float, B[:5])), "expected": float(p)}
        if route == "lib":
            v = j.value("2.ks", b, B, f, p)
            tol = REL
        else:
            bb, BB = b, B
            if not b.any():
                bb = []
            elif (B == 1).all():
                BB = []
            path = cli.write(cli.bounds(bb, BB))
            run = cli.run([prog, "ecdf2-ks2001", path])
            v, tol = run.value, REL_CLI
            if v is None:
                chk.violation("ecdf2-ks2001:no-answer" + (":hang" if run.hang else ""), run.brief(), {"kind": "cli", "argv": ["crossprob", "ecdf2-ks2001"], "file": open(path).read()})
            os.unlink(path)
        chk.observe(key, samp)
        chk.count("judged_" + route)
        if v is None:
            return
        e = abs(float(np.longdouble(v) / p - 1))
        chk.maximum("max_rel_err_" + route, e)
        if e > tol:
            rp = j.replay("2.ks", b, B, p) if route == "lib" else {"kind": "cli", "argv": ["crossprob", "ecdf2-ks2001"], "file": cli.bounds(bb, BB), "expected": str(p)}
            chk.violation("2.ks:%s:relative-accuracy" % route, {"case": f, "n": n, "b": list(map(float, b[:12])), "B": list(map(float, B[:12])), "expected": str(p), "got": v, "rel": e}, rp)

    numeric.run(chk, d, items, body)
    chk.assumptions = ["reference model: harness/oracle.cc (80-bit, sums of positive terms only)", "relative tolerance 1e-9 (library), 5.1e-6 (six printed digits)"]
    return chk.finish(3000, 1500)
