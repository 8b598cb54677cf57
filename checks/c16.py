"""C16: the work grows with n as documented."""
import multiprocessing, os, re, subprocess
import numpy as np
import common, gen

RULE = ("A case is one library call whose executed instructions were counted (valgrind callgrind, start-up subtracted) or whose CPU time was measured (larger n), for one shape of boundary at two sizes n and 4n: the growth factor must not exceed "
        "that of the documented complexity by more than the stated slack. The one-sided variants are also compared on reflected boundaries. Distinct by (entry point, shape, n); non-trivial when the call costs more than start-up.")
N2, N2L, N3 = 16, 16 * 1.25, 64
LIMIT = {"b.new": N2, "B.new": N2, "b.mns": N2, "B.mns": N2, "2.fft": N2L, "2.ks": N3}
SLACK = 1.5
FAMILIES = ("coarse", "edge", "tiny", "multiscale", "chained", "touching", "bj", "remote", "cluster", "grid", "few", "around_sample", "halves", "ends")
CEILING = 2.5       # how much dearer than the dearest regular shape of the same n any other boundary may be
FLOOR = 6e7         # instructions below which fixed costs (FFT planning, padding) dominate
FLOOR_T = 0.25      # seconds, likewise
HANG = 150          # seconds for one call that takes a few at most


def shape(f, n):
    i = np.arange(1, n + 1)
    if f == "ks":
        return np.clip(i / n - 1 / np.sqrt(n), 0, 1), np.clip((i - 1) / n + 1 / np.sqrt(n), 0, 1)
    if f == "wide":             # all of b early, all of B late: the widest possible range of states
        return 1e-3 * i / n, 1 - 1e-3 + 1e-3 * i / n
    if f == "tail":
        return np.clip(i / n - .5, 0, 1), np.clip((i - 1) / n + .5, 0, 1)
    if f == "narrow":
        return np.clip(i / n - .3 / np.sqrt(n), 0, 1), np.clip((i - 1) / n + .3 / np.sqrt(n), 0, 1)
    if f == "ties":
        b, B = shape("tail", n)
        return np.floor(b * 8) / 8, np.ceil(B * 8) / 8
    if f == "vacuous":
        return np.zeros(n), np.ones(n)
    if f == "cluster":          # half unconstrained, half within 1e-6
        b, B = np.zeros(n), np.ones(n)
        b[n // 2:] = 0.4 + 1e-6 * i[n // 2:] / n
        B[:n // 2] = 0.6 + 1e-6 * i[:n // 2] / n
        return b, B
    if f == "last":             # a single constraint at the very end / beginning
        b, B = np.zeros(n), np.ones(n)
        b[-1], B[0] = 0.9, 0.1
        return b, B
    if f == "scaled":           # everything squeezed into half the interval
        b, B = shape("ks", n)
        return b / 2, (1 + B) / 2
    name, seed, k = f.split("/")        # a random boundary
    return gen.FAMILIES[name](n, np.random.default_rng([int(seed), int(k), n]))


def main():
    chk = common.Check("C16", RULE)
    cg, prod = common.build("cg"), common.build("prod")
    shapes = ["wide", "tail", "ks", "cluster", "scaled", "narrow", "ties", "vacuous", "last"]
    sizes = {"b.new": [600, 2400], "B.new": [600, 2400], "b.mns": [400, 1600], "B.mns": [400, 1600], "2.ks": [110, 440], "2.fft": [500, 2000]}
    if chk.thorough:
        sizes = {"b.new": [600, 1500, 2400, 6000], "B.new": [600, 1500, 2400, 6000], "b.mns": [400, 1000, 1600, 4000], "B.mns": [400, 1000, 1600, 4000], "2.ks": [110, 200, 440, 800], "2.fft": [500, 1000, 2000, 4000]}
    timed = [("b.new", "ks", 6000), ("B.new", "ks", 6000), ("b.new", "wide", 6000), ("B.new", "wide", 6000), ("2.fft", "wide", 1500), ("2.ks", "wide", 400), ("b.mns", "wide", 2000), ("B.mns", "wide", 2000), ("2.fft", "ks", 5000), ("2.fft", "last", 12000)]
    if chk.thorough:
        timed += [("2.fft", "last", 50000)] + [(fn, f, 9000) for fn in ("b.new", "B.new") for f in ("ks", "tail", "cluster")] + [("2.fft", "tail", 2200), ("2.ks", "tail", 700), ("b.mns", "tail", 4000), ("B.mns", "tail", 4000)]
    items = [("time", fn, f, 4 * n) for fn, f, n in timed]
    for n_i in reversed(range(4 if chk.thorough else 2)):
        for f in shapes:
            for fn in sizes:
                items.append(("cg", fn, f, sizes[fn][n_i]))
    items += [("time", fn, f, n) for fn, f, n in timed]
    for k in range(6 if chk.thorough else 1):
        items += [("cg", fn, "%s/%d/%d" % (f, chk.seed, k), sizes[fn][-1 if chk.thorough else 1]) for f in FAMILIES for fn in sizes]
    order = sorted(range(len(items)), key=lambda i: -(items[i][3] ** 2) * (3 if items[i][0] == "cg" else 0.1) * (1 if items[i][1] != "2.ks" else items[i][3] / 100))

    def request(fn, f, n):
        b, B = shape(f, n)
        b, B = ([], B) if fn[0] == "B" else (b, []) if fn[0] == "b" else (b, B)
        return ("%s %d %d %s %s\n" % (fn, len(b), len(B), common.hexs(b), common.hexs(B))).encode()

    def outcome(fn, f, n, p):
        if p.returncode != 0 or not p.stdout.startswith(b"R "):
            chk.violation("%s:no-answer" % fn, {"shape": f, "n": n, "status": common.describe_status(p.returncode), "answer": p.stdout[:200].decode(errors="replace"), "stderr": p.stderr[-500:].decode(errors="replace")})
            return False
        return True

    def instructions(fn, f, n):
        counts = []
        for req in (request(fn, f, n), ("b.new %d 0 %s\n" % (n if fn[0] != "2" else 2 * n, " ".join(["0x1p+1"] * (n if fn[0] != "2" else 2 * n)))).encode()):    # the second: start-up, parsing and a rejection
            p = subprocess.run(["valgrind", "--tool=callgrind", "--callgrind-out-file=/dev/null", "--vgdb=no", os.path.join(cg, "driver")], input=req, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=HANG)
            m = re.search(rb"Collected : (\d+)", p.stderr)
            if not counts and not (m and outcome(fn, f, n, p)):
                if not m:
                    raise common.HarnessError("callgrind: " + p.stderr[-500:].decode(errors="replace"))
                return None
            counts.append(int(m.group(1)))
        return max(0, counts[0] - counts[1])

    def seconds(fn, f, n, reps=2):
        best = None
        for _ in range(reps):
            r0 = os.times()
            p = subprocess.run([os.path.join(prod, "driver")], input=request(fn, f, n), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=HANG)
            r1 = os.times()
            if not outcome(fn, f, n, p):
                return None
            t = r1.children_user - r0.children_user
            best = t if best is None else min(best, t)
            if t > 20:
                break
        return best

    hung = multiprocessing.get_context("fork").Value("i", 0)

    def body(i):
        what, fn, f, n = items[i]
        if hung.value:     # the verdict is out: answer soon
            return None
        try:
            c = instructions(fn, f, n) if what == "cg" else seconds(fn, f, n)
        except subprocess.TimeoutExpired:
            chk.violation("%s:hang" % fn, {"shape": f, "n": n, "measure": what, "seconds": HANG})
            hung.value = 1
            return None
        if c is not None:
            chk.observe((what, fn, f, n) if c > 1e6 or what == "time" else None, {"fn": fn, "shape": f, "n": n, ("instructions" if what == "cg" else "cpu seconds"): c})
            chk.count("measured_calls_" + what)
        return c

    res = common.parallel(chk, order, lambda: (body, lambda: None))
    cost = {items[i]: c for i, c in zip(order, res)}
    if not chk.violations:
        for (what, fn, f, n), c in sorted(cost.items()):
            if "/" in f:
                if c is not None:
                    worst = max(x for (w, g, h, m), x in cost.items() if (w, g, m) == (what, fn, n) and "/" not in h and x is not None)
                    chk.observe(None)
                    chk.count("random_boundaries_compared")
                    chk.maximum("max_random_over_regular_%s" % fn, c / worst)
                    if c > CEILING * worst + FLOOR:
                        chk.violation("%s:dear-boundary" % fn, {"family": f, "n": n, "instructions": c, "dearest regular shape": worst}, {"kind": "growth", "fn": fn, "shape": f, "n": n})
                continue
            big = cost.get((what, fn, f, 4 * n))
            if big is None or c is None or what == "time" and chk.violations:
                continue
            limit, floor = LIMIT[fn] * (SLACK if what == "cg" or "mns" not in fn else 2.2), FLOOR if what == "cg" else FLOOR_T
            for attempt in range(3):        # CPU time is noisy, instruction counts are not
                if what == "cg" or big <= limit * c + floor:
                    break
                c, big = max(c, seconds(fn, f, n)), min(big, seconds(fn, f, 4 * n, 1))
            chk.observe(None)
            chk.count("growth_comparisons")
            if big > 2 * floor:
                chk.maximum("max_growth_over_allowed_%s_%s" % (what, fn), big / (limit * c + floor))
            if big > limit * c + floor:
                chk.violation("%s:growth:%s" % (fn, what), {"shape": f, "n": [n, 4 * n], "cost": [c, big], "growth": big / max(c, 1e-9), "allowed": limit, "documented": LIMIT[fn]},
                              {"kind": "growth", "fn": fn, "shape": f, "n": n})
            # the two one-sided variants
            if fn[0] == "b":
                for m in (n, 4 * n):
                    b, B = shape(f, m)
                    x, y = cost.get((what, fn, f, m)), cost.get((what, "B" + fn[1:], f, m))
                    if x is None or y is None or not np.allclose(1 - b[::-1], B, atol=1e-9):
                        continue
                    chk.observe(None)
                    chk.count("variant_comparisons")
                    r = (max(x, y) + floor / 10) / (min(x, y) + floor / 10)
                    chk.maximum("max_variant_ratio_" + what, r)
                    if r > 2.5:
                        chk.violation("%s:variants-differ:%s" % (fn[2:], what), {"shape": f, "n": m, "b": x, "B": y})
    chk.assumptions = ["growth factors from n to 4n: n^2 -> 16, n^2 log n -> 20, n^3 -> 64, times a slack of %g (2.2 for the CPU time of mns2016), plus fixed costs of %.0e instructions or %gs" % (SLACK, FLOOR, FLOOR_T),
                       "instructions counted on a -march=x86-64-v2 build"]
    return chk.finish(100, 60)


if __name__ == "__main__":
    main()
