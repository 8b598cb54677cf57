"""C11: Monte-Carlo randomness depends on the clock second and the input only, and differs between seconds."""
import math, os, resource
import numpy as np
from scipy.stats import chi2
import common, gen, cli

RULE = ("A case is one run of crossprob_mc at a fixed clock second. Determinism: the same second and file under different environments (environment size, dirt on stack and heap, MALLOC_PERTURB_, working directory, "
        "file name, nanoseconds) print the same bytes; valgrind memcheck sees no use of uninitialised memory. Independence: runs at many seconds (consecutive, and apart by powers of two, minutes, days) are compared for equality, "
        "correlation and bias. Distinct by (mode, file, simulations, second, environment); all are non-trivial.")


LONG = 60000000


def limits():
    """Another process group, priority, file mask, open files and stack size."""
    os.setsid()
    os.nice(3)
    os.umask(0o077)
    for fd in range(40, 60):
        os.dup2(0, fd)
    resource.setrlimit(resource.RLIMIT_STACK, (1 << 20, 1 << 20))


def main():
    chk = common.Check("C11", RULE)
    d = common.build("prod", driver=False)
    v = common.build("vg", driver=False)
    fake, dirt = common.build_so("faketime"), common.build_so("stackdirt")
    prog = os.path.join(d, "bin", "crossprob_mc")
    k = 8 if chk.thorough else 1
    rng = chk.rng(1)
    base = 1400000000 + int(rng.integers(0, 3 * 10 ** 8))
    items = []
    for i in range(10 * k):
        items.append(("valgrind", i))
    for i in range(40 * k):
        items.append(("same", i))
    for m in ("ecdf", "poisson"):
        for side in (0, 1):
            for n in (1, 2, 5):
                items += [("series", (m, side, n, 1, c)) for c in range(8)]
                items += [("series", (m, side, n, 300, c)) for c in range(8)]
        for off in [1, 2, 3, 4, 5, 7, 10, 59, 60, 61, 100, 3600, 86400, 604800, 1000, 10000, 100000, 1000000, 2000000, 28 * 86400, 30 * 86400, 31 * 86400, 365 * 86400, 366 * 86400, 1461 * 86400, 65535, 65537, 999983, 1000003, 16777213, 10 ** 7, 10 ** 8, 10 ** 9] + [2 ** j for j in range(3, 34)]:
            items += [("offset", (m, off, c)) for c in range(k + 1)]
        items = [("long", (m, c)) for c in range(40 * (2 if chk.thorough else 1))] + items
    SERIES = 200 * k

    def run(mode, path, sims, t, env=None, cwd=None, pre=None, argv0=None, ns=0, **kw):
        e = {"LD_PRELOAD": fake + (":" + dirt if pre is not None else ""), "FAKETIME": str(t), "FAKETIME_NS": str(ns)}
        if pre is not None:
            e["DIRT"] = str(pre)
        e.update(env or {})
        r = cli.run([argv0 or prog, mode, path, str(sims)], env=e, cwd=cwd, **kw)
        chk.count("runs")
        if r.value is None:
            chk.violation("%s:no-answer" % mode, dict(r.brief(), second=t), {"kind": "cli", "argv": ["crossprob_mc", mode], "tail": [str(sims)], "file": open(path).read(), "env": {"FAKETIME": str(t)}})
        return r

    def half(n, side):
        """A boundary crossed with probability about one half."""
        r = np.random.default_rng(5)
        b, B = gen.single(n, n // 2, r)
        return (b, []) if side else ([], B)

    def body(it):
        kind, a = it
        if kind == "valgrind":
            r = chk.rng(2, a)
            n = int(r.choice([1, 2, 7, 30]))
            b, B = gen.FAMILIES[gen.LIVELY[a % len(gen.LIVELY)]](n, r)
            z = a % 5
            b, B = (b, []) if z == 0 else ([], B) if z == 1 else (b, B[:n // 2]) if z == 2 else (b, B)
            m = "ecdf" if a % 2 else "poisson"
            f = cli.write(cli.bounds(b, B))
            q = cli.run(["valgrind", "--vgdb=no", "--error-exitcode=99", "-q", "--track-origins=yes", "--leak-check=no", os.path.join(v, "bin", "crossprob_mc"), m, f, "300"],
                        env={"LD_PRELOAD": fake, "FAKETIME": str(base + a)}, timeout=200)
            chk.observe(("vg", m, a), {"case": "valgrind", "mode": m, "n": n, "stdout": q.out[-40:].decode(errors="replace")})
            chk.count("valgrind_runs")
            if q.status == 99 or b"== Conditional jump" in q.err or b"Use of uninit" in q.err:
                chk.violation("%s:uninitialised-memory" % m, q.brief(), {"kind": "cli", "argv": ["crossprob_mc", m], "tail": ["300"], "file": cli.bounds(b, B), "tool": "valgrind"})
            elif q.value is None:
                if q.status < 0 or q.hang:
                    raise common.Inconclusive("valgrind run ended with %s %s" % (q.status, q.err[-500:]))
                chk.violation("%s:no-answer" % m, q.brief(), None)
            os.unlink(f)
        elif kind == "same":
            r = chk.rng(3, a)
            n = int(r.choice([1, 2, 3, 10, 50, 300]))
            b, B = gen.FAMILIES[["ks", "tube", "bj", "few"][a % 4]](n, r)
            z = int(r.integers(4))
            b, B = (b, []) if z == 0 else ([], B) if z == 1 else (b, B)
            m = "ecdf" if r.random() < 0.5 else "poisson"
            sims = int(r.choice([1, 100, 20000] + ([200000, 2000000] if n <= 3 else [])))
            text = cli.bounds(b, B)
            f = cli.write(text)
            deep = os.path.join(common.scratch(), "d" * 60, "e" * int(r.integers(1, 120)), str(os.getpid()))
            os.makedirs(deep, exist_ok=True)
            g = os.path.join(deep, "another name %d.csv" % a)
            open(g, "w").write(text)
            exe2 = os.path.join(deep, "mc")
            if not os.path.exists(exe2):
                os.symlink(prog, exe2)
            t = base + 1000 * a + 17
            outs = {}
            for name, kw in (("plain", {}), ("again", {}), ("big-env", {"env": {"X%d" % j: "y" * 700 for j in range(60)}}), ("dirt0", {"pre": 0}), ("dirt255", {"pre": 255}), ("dirt90", {"pre": 90, "env": {"MALLOC_PERTURB_": "77"}}),
                             ("perturb", {"env": {"MALLOC_PERTURB_": "165"}}), ("cwd", {"cwd": deep}), ("ns", {"ns": 999999999}), ("ns2", {"ns": 500000000}), ("argv0", {"argv0": exe2}),
                             ("tunables", {"env": {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0:glibc.malloc.mmap_threshold=4096"}}), ("name", {"path": g}), ("bare", {"bare": True}),
                             ("login", {"bare": True, "env": {"TERM": "dumb", "USER": "u%d" % a, "LOGNAME": "v", "HOME": "/h%d" % a, "SHELL": "/bin/ksh", "LANG": "C", "LC_ALL": "POSIX", "TZ": "Asia/Tokyo", "HOSTNAME": "x", "PWD": "/q", "OLDPWD": "/", "SEED": "5", "RANDOM": "9", "SHLVL": "3", "_": "z", "COLUMNS": "7", "OMP_NUM_THREADS": "3", "TMPDIR": "/nowhere", "EDITOR": "e", "SOURCE_DATE_EPOCH": "1"}}),
                             ("limits", {"preexec": limits}), ("input", {"stdin": b"12345\n" * 50}), ("last", {})):
                p = kw.pop("path", f)
                q = run(m, p, sims, t, **kw)
                outs[name] = q.out.decode(errors="replace")
                chk.observe(("same", m, text, sims, t, name), {"case": "same second", "mode": m, "n": n, "sims": sims, "second": t, "environment": name, "stdout": outs[name].strip()})
            chk.count("determinism_groups")
            if len(set(outs.values())) != 1:
                chk.violation("%s:depends-on-environment" % m, {"n": n, "sims": sims, "second": t, "outputs": outs}, {"kind": "cli", "argv": ["crossprob_mc", m], "tail": [str(sims)], "file": text, "env": {"FAKETIME": str(t)}})
            os.unlink(f)
        elif kind == "long":
            m, c = a
            f = cli.write(cli.bounds(*half(1, c % 2)))
            q = run(m, f, LONG, base + 90000000 + 7 * c, timeout=600)
            os.unlink(f)
            chk.observe(it, {"case": "long run", "mode": m, "sims": LONG, "value": q.value})
            return q.value
        elif kind == "series":
            m, side, n, sims, c = a
            f = cli.write(cli.bounds(*half(n, side)))
            vals = []
            for j in range(SERIES):
                t = base + 50000000 + c * SERIES + j
                q = run(m, f, sims, t)
                chk.observe((a, j), None)
                if q.value is None:
                    return None
                vals.append(q.value)
            os.unlink(f)
            return vals
        else:
            m, off, c = a
            r = chk.rng(6, off, c)
            for n in (1, 2, 3, 4, 7, 16, 33, 200, 1025):
                t, same = base + int(r.integers(0, 2 ** 27)), []
                for i in range(5):          # different boundaries on the same samples: all five equal only if the samples are
                    w, sims = np.random.default_rng(i), 40000 if n < 10 else 20000 if n < 100 else 2000
                    b, B = gen.single(n, [n // 2, 0, n - 1, n // 3, n // 4][i], w)
                    f = cli.write(cli.bounds(*((b, []) if i % 2 else ([], B))))
                    x, y = run(m, f, sims, t).value, run(m, f, sims, t + off).value
                    os.unlink(f)
                    chk.observe((a, n, i), {"case": "two seconds", "mode": m, "offset": off, "n": n, "values": [x, y]})
                    same.append([x, y])
                    if x is None or x != y:
                        break
                else:
                    chk.violation("%s:same-samples-in-different-seconds" % m, {"offset": off, "second": t, "n": n, "values": same}, {"kind": "cli", "argv": ["crossprob_mc", m], "tail": ["40000"], "file": cli.bounds(*half(n, 0)), "env": {"FAKETIME": str(t)}})
            chk.count("offset_pairs")

    res = common.parallel(chk, items, lambda: (body, lambda: None))
    groups = {}
    o = common.Oracle()
    for it, val in zip(items, res):
        if it[0] == "series" and val is not None:
            groups.setdefault(it[1][:4], []).append((it[1][4], val))
    for (m, side, n, sims), parts in groups.items():
        if len(parts) < 8:
            continue
        x = np.concatenate([w for _, w in sorted(parts)])
        b, B = half(n, side)
        p = float(o("P" if m == "poisson" else "E", n, b, B))
        K = len(x)
        key = "%s:sims%d" % (m, sims)
        det = {"mode": m, "n": n, "sims": sims, "side": side, "p": p, "first_second": base + 50000000, "seconds": K, "first": x[:40].tolist()}
        rep = {"kind": "cli", "argv": ["crossprob_mc", m], "tail": [str(sims)], "file": cli.bounds(b, B), "env": {"FAKETIME": str(base + 50000000)}}
        z = (x.mean() - p) / math.sqrt(p * (1 - p) / (K * sims))
        chk.maximum("max_series_z", abs(z))
        if abs(z) > 6.5:
            chk.violation(key + ":series-biased", dict(det, mean=float(x.mean()), z=z), rep)
        y = (x - p) / math.sqrt(p * (1 - p) / sims)
        zv = ((y ** 2).mean() - 1) / math.sqrt(max((1 / (p * (1 - p)) - 6) / sims + 2, 0.02) / K)
        chk.maximum("max_series_var_z", abs(zv))
        if abs(zv) > 8:
            chk.violation(key + ":series-dispersion", dict(det, z=zv), rep)
        for lag in list(range(1, 33)) + [60, 64, 100, 128, 256, 512, 1024]:
            if lag < K // 2:
                r = (y[lag:] * y[:-lag]).mean() * math.sqrt(K - lag)
                chk.maximum("max_lag_z", abs(r))
                if abs(r) > 7:
                    chk.violation(key + ":correlated-seconds", dict(det, lag=lag, z=float(r)), rep)
        chk.count("series")
    for m in ("ecdf", "poisson"):
        z2, ok = [], True
        for it, val in zip(items, res):
            if it[0] == "long" and it[1][0] == m:
                if val is None:
                    ok = False
                    break
                b, B = half(1, it[1][1] % 2)
                p = float(o("P" if m == "poisson" else "E", 1, b, B))
                z2.append((val - p) ** 2 / (p * (1 - p) / LONG))
        if ok:
            x, K = sum(z2), len(z2)
            chk.maximum("max_long_dispersion", x / K)
            if chi2.cdf(x, K) < 1e-7 or chi2.sf(x, K) < 1e-7:   # seconds (or stretches of one run) that share samples
                chk.violation("%s:long-runs-share-samples" % m, {"sims": LONG, "runs": K, "dispersion": x / K, "squared z values": z2}, None)
    o.s.close()
    chk.assumptions = ["the clock is replaced by LD_PRELOAD (time, gettimeofday, clock_gettime, timespec_get)", "statistics at 6.5 sigma or more on 1600 consecutive seconds (thorough: 12800)"]
    return chk.finish(20000, 15000)
