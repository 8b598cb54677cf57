"""C21: everything around the computations (reading files, simulating, passing sequences, rejecting) is linear, and memory always is."""
import os, re, subprocess
import numpy as np
import common, cli

RULE = ("A case is one run of a program, the library or the Python module whose executed instructions (valgrind callgrind), peak heap and resident memory (interposed allocator, kernel) or CPU time was measured, at one size; it is compared with the run that is "
        "identical but 4 or 16 times larger. Distinct by (what, variant, size); non-trivial when it costs clearly more than start-up.")
FLOOR_I = 4e6       # instructions: start-up of a program
FLOOR_H = 150e3     # bytes of heap: start-up, stream buffers
FLOOR_R = 1500      # KB resident
HANG = 90           # seconds for one measurement that takes a few at most; growth is judged long before


def number_files():
    """name -> function(N) -> file content with about N numbers"""
    def inc(n):
        return np.arange(1, n + 1) / (n + 1.)

    def line(v, sep=","):
        return sep.join("%.6g" % x for x in v)

    def long_(n):
        return ",".join("0." + ("%06d" % (1 + 999990 * i // n)) + "123456789" * 30 for i in range(n))
    half = lambda n: inc(n // 2)
    return {
        "b-line": lambda n: line(inc(n)) + "\n\n",
        "B-line": lambda n: "\n" + line(inc(n)) + "\n",
        "both-lines": lambda n: line(half(n)) + "\n" + line(half(n)) + "\n",
        "spaces": lambda n: line(inc(n), " ,   ") + "\n\n",
        "crlf": lambda n: line(half(n)) + "\r\n" + line(half(n)) + "\r\n",
        "trailing-comma": lambda n: line(half(n)) + ",\n" + line(half(n)) + ",\n",
        "no-last-newline": lambda n: "\n" + line(inc(n)),
        "long-numbers": lambda n: "\n" + long_(n // 30) + "\n",
        "exponents": lambda n: "\n" + ",".join("%.16e" % x for x in inc(n)) + "\n",
        "zeros": lambda n: ",".join(["0"] * n) + "\n\n",
        "blanks-after-a-number": lambda n: "0.1," + "0.2" + " " * n + "\n" + "0.3,0.4" + " " * (n // 3) + "\t" * (n // 5) + ",\n",
        "blanks-in-one-field": lambda n: "0.1," + " " * n + "0.2\n" + "0.3,0.4\n",
        "blanks-in-the-first-field": lambda n: " " * n + "0.1,0.2\n" + "\t" * (n // 2) + "0.3,0.4\n",
        "blank-runs": lambda n: line(inc(n // 10), "," + " \t" * 15 + " " * 9) + "\n\n",
        "zeros-in-one-field": lambda n: "0.1,0." + "0" * n + "2\n" + "0.3,0.4\n",
        "text-after-number": lambda n: "0.1,0.2" + "x" * n + "\n" + "0.3,0.4\n",
    }


def main():
    chk = common.Check("C21", RULE)
    cg, prod = common.build("cg"), common.build("prod")
    usage, py = common.build_so("usage"), common.build_pyext()
    files = number_files()
    T = chk.thorough
    items = []      # (what, variant, size, factor between the sizes compared, limit, floor)

    def pair(what, variant, size, factor, limit, floor):
        items.append((what, variant, size, factor, limit, floor))
        items.append((what, variant, size * factor, factor, limit, floor))

    base = 40000 if T else 10000
    for f in files:
        n = base if "one-field" not in f and f != "text-after-number" else 25 * base
        pair("read-cost", f, n, 4, 6, FLOOR_I)
        pair("read-memory", f, 4 * n, 4, 6, (FLOOR_H, FLOOR_R))
    for f in ("late-descent", "late-range", "late-nan", "late-bad-field", "late-descent-to-zero", "late-slight-descent", "late-B-slight-descent", "all-nan", "sawtooth", "all-out-of-range", "all-bad-fields", "unequal", "both-given", "late-B-descent", "all-descending", "late-infinity", "early-descent"):
        pair("reject-cost", f, base, 4, 6, FLOOR_I)
    for m in ("ecdf", "poisson"):
        for f in ("b", "B", "both", "never", "always"):
            pair("simulate-cost-runs", "%s %s" % (m, f), 3000 if T else 1000, 4, 5.5, FLOOR_I)
            pair("simulate-cost-n", "%s %s" % (m, f), 300, 4, 6, FLOOR_I)
            pair("simulate-memory-n", "%s %s" % (m, f), 20000, 4, 6, (FLOOR_H, FLOOR_R))
        for f in ("b", "B", "both"):
            # whatever the number of simulations: one bit kept for each would be seen
            pair("simulate-memory-runs", "%s %s" % (m, f), 15, 1000000 * (8 if T else 2), None, (FLOOR_H, FLOOR_R))
    mem = {"b.new": (1500, 8 if not T else 16), "B.new": (1500, 8 if not T else 16), "b.mns": (1000, 4), "B.mns": (1000, 4), "2.fft": (1000, 4), "2.ks": (200, 4)}
    for fn, (n, k) in mem.items():
        for shape in ("ks", "wide", "vacuous", "irregular"):
            pair("compute-memory", "%s %s" % (fn, shape), n, k, 1.5 * k, (FLOOR_H, FLOOR_R))
    for fn in ("ecdf1_new_b", "ecdf1_new_B", "ecdf1_mns2016_b", "ecdf1_mns2016_B", "ecdf2:b", "ecdf2:B"):
        for kind in ("list", "tuple", "numpy", "strided", "vector", "userseq"):
            pair("pass-cost", "%s %s" % (fn, kind), 100000, 8, 16, 0.2)
    for kind in ("construct", "iterate", "append", "tolist", "compare", "slice", "index"):
        pair("vector-cost", kind, 30000, 8, 16, 0.2)

    def run_usage(argv, stdin=b"", env=None):
        out = cli.write(b"")
        p = subprocess.run(argv, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=HANG, env=dict(os.environ, LD_PRELOAD=usage, USAGE_OUT=out, **(env or {})))
        text = open(out).read().split()
        os.unlink(out)
        if len(text) != 3:
            if p.returncode < 0:
                return p, None
            raise common.HarnessError("no usage report from %s: %s" % (argv, p.stderr[-500:]))
        return p, (int(text[0]), int(text[1]), float(text[2]))

    def callgrind(argv):
        p = subprocess.run(["valgrind", "--tool=callgrind", "--callgrind-out-file=/dev/null", "--vgdb=no"] + argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=HANG)
        m = re.search(rb"Collected : (\d+)", p.stderr)
        if not m:
            raise common.HarnessError("callgrind: " + p.stderr[-500:].decode(errors="replace"))
        return p, int(m.group(1))

    def mc_bounds(variant, n):
        i = np.arange(1, n + 1)
        b, B = np.clip(i / n - 1 / np.sqrt(n), 0, 1), np.clip((i - 1) / n + 1 / np.sqrt(n), 0, 1)
        f = variant.split()[1]
        if f == "never":
            return np.zeros(n), np.ones(n)
        if f == "always":
            return np.zeros(n), np.full(n, 1e-9)
        return (b, []) if f == "b" else ([], B) if f == "B" else (b, B)

    PYTEST = r"""
import sys, time, crossprob, numpy as np
what, variant, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
class UserSeq:
    def __init__(self, v): self.v = v
    def __len__(self): return len(self.v)
    def __getitem__(self, i): return self.v[i]
good = [(i + 1) / (n + 1.0) for i in range(n)]
bad = good[:-1] + [0.0]
make = {"list": list, "tuple": tuple, "numpy": np.array, "strided": lambda v: np.repeat(np.array(v), 2)[::2], "vector": crossprob.VectorDouble, "userseq": UserSeq}
if what == "pass-cost":
    fn, kind = variant.split()
    x, ok = make[kind](bad), make[kind](good)
    fn, _, which = fn.partition(":")
    f = getattr(crossprob, fn)
    args = (x,) if not which else (x, ok, True) if which == "b" else (ok, x, True)
    t = time.process_time()
    try:
        f(*args)
        r = "accepted"
    except RuntimeError as e:
        r = "rejected"
    t = time.process_time() - t
else:
    v, r = crossprob.VectorDouble(good), "rejected"
    t = time.process_time()
    if variant == "construct": crossprob.VectorDouble(good)
    if variant == "iterate":
        for x in v: pass
    if variant == "append":
        w = crossprob.VectorDouble()
        for x in good: w.append(x)
    if variant == "tolist": list(v); tuple(v)
    if variant == "compare": [x == y for x, y in zip(v, good)]
    if variant == "slice": v[1:n]; v[:]
    if variant == "index": [v[i] for i in range(n)]
    t = time.process_time() - t
print(r, t)
"""
    script = cli.write(PYTEST, "pycost.py")

    def python(what, variant, n):
        p = subprocess.run(["/usr/bin/python3", "-W", "ignore", script, what, variant, str(n)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=HANG,
                           env=dict(os.environ, PYTHONPATH=py, PYTHONNOUSERSITE="1", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1"))
        if p.returncode != 0:
            raise RuntimeError("python: %s %s" % (common.describe_status(p.returncode), p.stderr[-800:].decode(errors="replace")))
        r, t = p.stdout.split()
        return p, r.decode(), float(t)

    def measure(what, variant, size):
        """(None or what is wrong with the outcome, costs)"""
        if what in ("read-cost", "read-memory"):
            path = cli.write(files[variant](size))
            try:
                if what == "read-cost":
                    p, c = callgrind([os.path.join(cg, "bin", "crossprob_mc"), "ecdf", path, "1"])
                else:
                    p, c = run_usage([os.path.join(prod, "bin", "crossprob_mc"), "ecdf", path, "1"])
            finally:
                os.unlink(path)
            ok = p.returncode == 0 and cli.NUMBER.match(p.stdout.rstrip(b"\n"))
            return (None if ok else "no-answer", p, c)
        if what == "reject-cost":
            v = ["%.6g" % x for x in np.arange(1, size + 1) / (size + 1.)]
            if variant in ("late-descent", "late-B-descent"):
                v[-1] = "0.5"
            if variant == "late-descent-to-zero":
                v[-1] = "0"
            if variant in ("late-slight-descent", "late-B-slight-descent"):
                v[-2:] = [".9999999999999999", ".9999999999999998"]
            if variant == "all-nan":
                v = ["nan"] * size
            if variant == "sawtooth":
                v[1::2] = v[:-1:2][::-1][:len(v[1::2])]
            if variant == "all-descending":
                v = v[::-1]
            if variant == "early-descent":
                v[0] = "0.9999"
            if variant == "late-infinity":
                v[-1] = "inf"
            if variant == "all-out-of-range":
                v = ["1." + x[2:] for x in v]
            if variant == "all-bad-fields":
                v = ["x%d" % i for i in range(size)]
            if variant == "late-range":
                v[-1] = "1.01"
            if variant == "late-nan":
                v[-1] = "nan"
            if variant == "late-bad-field":
                v[-1] = "x"
            s = ",".join(v)
            content = {"unequal": s + "\n0.5,0.6\n", "both-given": s + "\n" + s + "\n", "late-B-descent": "\n" + s + "\n", "late-B-slight-descent": "\n" + s + "\n"}.get(variant, s + "\n\n")
            path = cli.write(content)
            algo = {"unequal": "ecdf2-mn2017", "both-given": "ecdf1-new", "late-descent": "ecdf1-new", "late-B-descent": "ecdf1-new", "late-range": "ecdf2-ks2001", "late-nan": "ecdf1-mns2016", "late-B-slight-descent": "ecdf1-mns2016", "all-nan": "ecdf1-new", "all-out-of-range": "ecdf1-new", "late-slight-descent": "ecdf1-new"}.get(variant, "ecdf2-mn2017")
            p, c = callgrind([os.path.join(cg, "bin", "crossprob"), algo, path])
            os.unlink(path)
            return (None if p.returncode > 0 else "not-rejected", p, c)
        if what.startswith("simulate"):
            n, sims = (size, {"simulate-cost-n": 200, "simulate-memory-n": 3}[what]) if what.endswith("-n") else (40 if "cost" in what else 3, size)
            path = cli.write(cli.bounds(*mc_bounds(variant, n)))
            argv = [variant.split()[0], path, str(sims)]
            if "cost" in what:
                p, c = callgrind([os.path.join(cg, "bin", "crossprob_mc")] + argv)
            else:
                p, c = run_usage([os.path.join(prod, "bin", "crossprob_mc")] + argv)
            os.unlink(path)
            return (None if p.returncode == 0 and cli.NUMBER.match(p.stdout.rstrip(b"\n")) else "no-answer", p, c)
        if what == "compute-memory":
            import c16
            fn, f = variant.split()
            if f == "irregular":
                r = chk.rng(size)
                b, B = np.sort(r.random(size) * 0.3), np.sort(1 - 0.3 * r.random(size))
            else:
                b, B = c16.shape(f, size)
            b, B = ([], B) if fn[0] == "B" else (b, []) if fn[0] == "b" else (b, B)
            p, c = run_usage([os.path.join(prod, "driver")], ("%s %d %d %s %s\n" % (fn, len(b), len(B), common.hexs(b), common.hexs(B))).encode())
            return (None if p.returncode == 0 and p.stdout.startswith(b"R ") else "no-answer", p, c)
        p, r, t = python(what, variant, size)
        return (None if r == "rejected" else "accepted", p, t)

    def body(i):
        what, variant, size = items[i][:3]
        rep = None
        try:
            wrong, p, c = measure(what, variant, size)
        except subprocess.TimeoutExpired:
            chk.violation("%s:%s:hang" % (what, variant), {"size": size, "seconds": HANG}, rep)
            return None
        except RuntimeError as e:
            if isinstance(e, common.HarnessError):
                raise
            chk.violation("%s:%s:no-answer" % (what, variant), {"size": size, "how": str(e)}, rep)
            return None
        if wrong or c is None:
            chk.violation("%s:%s:%s" % (what, variant, wrong or "no-answer"), {"size": size, "status": common.describe_status(p.returncode), "stdout": p.stdout[-300:].decode(errors="replace"), "stderr": p.stderr[-500:].decode(errors="replace")}, rep)
            return None
        big = c > FLOOR_I if isinstance(c, int) else True
        chk.observe((what, variant, size) if big else None, {"what": what, "variant": variant, "size": size, "cost": c})
        chk.count("measured_" + what)
        return c

    weight = {"simulate-memory-runs": 9, "read-cost": 5, "reject-cost": 5, "compute-memory": 6, "simulate-cost-runs": 4, "simulate-cost-n": 4, "pass-cost": 2}
    order = sorted(range(len(items)), key=lambda i: (-weight.get(items[i][0], 1), -items[i][2]))
    res = common.parallel(chk, order, lambda: (body, lambda: None))
    cost = dict(zip(order, res))
    for i in range(0, len(items), 2):
        what, variant, size, factor, limit, floor = items[i]
        small, large = cost.get(i), cost.get(i + 1)
        if small is None or large is None:
            continue
        names = ["heap bytes", "resident KB"] if isinstance(floor, tuple) else ["CPU seconds" if isinstance(small, float) else "instructions"]
        for k, name in enumerate(names):
            s, l, f = (small[k], large[k], floor[k]) if isinstance(small, tuple) else (small, large, floor)
            if limit is None:
                allowed = s + f
            else:
                allowed = limit * (s if name != "resident KB" else max(0, s - 3000)) + f + (0 if name != "resident KB" else 4500)
                for _ in range(3):      # CPU time is noisy
                    if name != "CPU seconds" or l <= allowed:
                        break
                    try:
                        s, l = max(s, measure(what, variant, size)[2]), min(l, measure(what, variant, size * factor)[2])
                    except subprocess.TimeoutExpired:
                        break
                    allowed = limit * s + f
            chk.observe(None)
            chk.count("comparisons")
            chk.maximum("max_over_allowed_%s_%s" % (what, name.replace(" ", "_")), l / allowed)
            if l > allowed:
                chk.violation("%s:%s:%s" % (what, variant, name), {"sizes": [size, size * factor], "cost": [s, l], "allowed": allowed, "unit": name}, None)
    chk.assumptions = ["constant factors are not judged, growth is", "growth slower than the slack (50-100%) over the range measured is not seen", "resident memory below a few MB is not seen"]
    return chk.finish(300, 250)


if __name__ == "__main__":
    main()
