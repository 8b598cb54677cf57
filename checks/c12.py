"""C12: no memory error or undefined behaviour, on valid and invalid input."""
import os
import numpy as np
import common, gen, cli
from c06 import offend, KINDS

RULE = ("A case is one library call or program run executed under a monitor: AddressSanitizer+UndefinedBehaviorSanitizer+libstdc++ assertions and container annotations, valgrind memcheck (which also sees FFTW's accesses and "
        "uninitialised data), or the production build with its own assertions on. Any report, assertion failure or signal is a violation; rejecting the input is not. Distinct by (monitor, entry point, all input bits); "
        "non-trivial when n >= 1.")
LIB = ("b.new", "B.new", "b.mns", "B.mns", "2.ks", "2.fft")
ENV = dict(common.SAN_ENV, ASAN_OPTIONS=common.SAN_ENV["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0"))


def main():
    chk = common.Check("C12", RULE)
    asan, vg, prod = common.build("asan"), common.build("vg"), common.build("prod")
    fake = common.build_so("faketime")
    k = 8 if chk.thorough else 1
    names = list(gen.FAMILIES)
    rng = chk.rng(1)
    V = ["valgrind", "--vgdb=no", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--track-origins=no"]
    items = []
    # valgrind: slow, so few boundary points but the lengths where buffers, padding and plan tables change
    for n in (2048, 1023, 1024, 1025, 2047, 1100, 3071, 3072, 3073):
        for fn in ("2.fft", "b.new", "B.new"):
            items.append(("vg", fn, n, "coarse", 0))
    for n in (127, 128, 126, 129, 200, 255, 256, 400, 511, 640):
        for fn in LIB:
            if not (fn in ("2.ks", "b.mns", "B.mns") and n > 256):
                items.append(("vg", fn, n, "coarse" if n > 130 else "few", 1))
    for i in range(150 * k):
        items.append(("vg", LIB[i % 6], int(rng.integers(0, 60)), names[int(rng.integers(len(names)))], i))
    for i in range(40 * k):
        items.append(("vgbad", LIB[i % 6], int(rng.integers(1, 40)), KINDS[i % len(KINDS)], i))
    for i in range(24 * k):
        items.append(("vgcli", i, 0, 0, 0))
    # sanitizers: every length up to 300, and around the block and padding sizes
    for n in (6000, 5000, 4097, 4096, 3000, 2500, 2049, 2048, 2047, 1500):
        for fn in ("2.fft", "b.new", "B.new"):
            for f in ("coarse", "few"):
                items.append(("asan", fn, n, f, 0))
    for n in (1600, 1025, 1024, 1023, 1000, 800, 600, 513, 512, 511):
        for fn in LIB:
            items.append(("asan", fn, n, "coarse", 0))
    for n in range(0, 301):
        for fn in LIB:
            for s in range(2 * k):
                items.append(("asan", fn, n, names[int(rng.integers(len(names)))], s))
    for i in range(4000 * k):
        items.append(("asan", LIB[i % 6], int(rng.integers(1, 40)), names[int(rng.integers(len(names)))], 10 + i))
    for i in range(1200 * k):
        items.append(("asanbad", LIB[i % 6], int(rng.choice([1, 2, 3, 10, 40, 129, 300])), KINDS[i % len(KINDS)], i))
    for i in range(250 * k):
        items.append(("len", LIB[4 + i % 2], int(rng.integers(0, 40)), int(rng.integers(0, 300)), i))
    for i in range(600 * k):
        items.append(("asancli", i, 0, 0, 0))
    for i in range(3000 * k):
        items.append(("prod", LIB[i % 6], int(rng.integers(0, 200)), names[int(rng.integers(len(names)))], i))

    def lib(w, fn, b, B, what, label):
        if w[what] is None:
            d = {"asan": asan, "vg": vg, "prod": prod}[what]
            l = common.Lib(d, env=ENV if what == "asan" else None, timeout=200)
            if what == "vg":
                l.s.argv = V + l.s.argv
            w[what] = l
        kind, r = w[what].call(fn, b, B)
        n = max(len(b), len(B))
        chk.observe((what, fn, np.asarray(b, float).tobytes(), np.asarray(B, float).tobytes()) if n else None,
                    {"monitor": what, "fn": fn, "case": label, "lengths": [len(b), len(B)], "outcome": kind})
        chk.count("calls_" + what)
        chk.count("outcome_" + {"R": "value", "E": "rejected"}.get(kind, kind))
        chk.maximum("largest_n_" + what, n)
        if kind in ("DIED", "HANG"):
            chk.violation("%s:%s:%s" % (what, fn, "hang" if kind == "HANG" else "report"), {"case": label, "lengths": [len(b), len(B)], "b": list(map(float, b[:10])), "B": list(map(float, B[:10])), "report": r[:3000]},
                          {"kind": "lib", "fn": fn, "b": [common.hexf(x) for x in b], "B": [common.hexf(x) for x in B], "flavour": what})

    def args_for(fn, b, B):
        return (b, []) if fn[0] == "b" else ([], B) if fn[0] == "B" else (b, B)

    def program(w, tool, i):
        r = chk.rng(4, i, len(tool))
        n = int(r.choice([0, 1, 2, 5, 30, 130, 400])) if tool == "asan" else int(r.choice([1, 2, 9]))
        m = (cli.ALGOS + ("ecdf", "poisson"))[int(r.integers(6))]
        if m in ("ecdf", "poisson") and tool == "asan" and r.random() < 0.4:
            n = int(r.choice([2047, 2048, 2049, 4095, 4096, 10000, 70000]))      # a few simulations of large samples
        b, B = gen.FAMILIES[names[i % len(names)]](n, r) if n else (np.zeros(0), np.ones(0))
        z = int(r.integers(6))
        if z == 0:
            b = []
        elif z == 1:
            B = []
        elif z == 2:
            B = B[:int(r.integers(0, n + 1))]
        elif z == 3:
            b = b[:int(r.integers(0, n + 1))]
        text = cli.bounds(b, B)
        if r.random() < 0.3:
            from c08 import mutate
            text = mutate(r, text.encode())
        f = cli.write(text)
        p = "crossprob_mc" if m in ("ecdf", "poisson") else "crossprob"
        d = asan if tool == "asan" else vg
        env = {"FAKETIME": str(1700000000 + i)}
        if p == "crossprob_mc" and tool != "asan":      # two preloads do not mix with ASan's own
            env["LD_PRELOAD"] = fake
        if tool == "asan":
            env.update(ENV)
        argv = [os.path.join(d, "bin", p), m, f] + ([str(int(r.choice([1, 40, 500])))] if p == "crossprob_mc" else [])
        q = cli.run((V if tool == "vg" else []) + argv, env=env, timeout=120)
        chk.observe((tool, p, m, text), {"monitor": tool, "program": p, "mode": m, "file": str(text)[:100], "status": q.status})
        chk.count("runs_" + tool + "_" + p)
        if q.hang or q.status < 0 or q.status == 99:
            chk.violation("%s:%s:%s" % (tool, p, "hang" if q.hang else "report"), dict(q.brief(), file=str(text)[:400]),
                          {"kind": "cli", "argv": [p, m], "tail": argv[3:], "file": text if isinstance(text, str) else text.decode("latin1"), "flavour": tool})
        os.unlink(f)

    def body(w, it):
        what, fn, n, f, i = it
        if what in ("asancli", "vgcli"):
            return program(w, what[:-3], fn)
        if what == "len":
            r = chk.rng(5, i)
            b, B = np.sort(r.random(n)), np.sort(r.random(f))
            lib(w, fn, b, B, "asan", "lengths")
            if i % 10 == 0:
                lib(w, fn, b, B, "vg", "lengths")
            return
        r = chk.rng(2, n, sum(map(ord, fn)), sum(map(ord, f)), i)
        if what in ("asan", "vg", "prod"):
            b, B = gen.FAMILIES[f](n, r) if n else (np.zeros(0), np.zeros(0))
            lib(w, fn, *args_for(fn, b, B), what, f)
        else:
            b, B = gen.FAMILIES[names[i % len(names)]](n, r)
            pos = int(r.integers(n))
            x, y = offend(b, f, pos, r), offend(B, f, pos, r)
            x, y = (b if x is None else x), (B if y is None else y)
            if fn[0] == "2" and r.random() < 0.5:
                x, y = (x, B) if r.random() < 0.5 else (b, y)
            lib(w, fn, *args_for(fn, x, y), what[:-3], f)

    def make():
        w = {"asan": None, "vg": None, "prod": None}
        return (lambda it: body(w, it)), (lambda: [x.close() for x in w.values() if x])
    common.parallel(chk, items, make)
    chk.assumptions = ["red-zone tools miss accesses that stay inside another live object", "the valgrind build uses -march=x86-64-v2 (valgrind 3.22 has no AVX-512); its values are not judged"]
    return chk.finish(8000, 6000)
