"""C19: running out of memory is reported as an error; it never crashes, never yields a wrong number, and does no lasting harm."""
import os, re
import numpy as np
import common, gen, cli
from pylib import PyLib

RULE = ("A case is one call or program run during which one chosen heap allocation (or that one and all later ones) made by the package or by the C++ runtime on its behalf was refused. It must end in an error of the ordinary kind "
        "(C++: std::bad_alloc or another std::exception; Python: an exception; programs: nonzero status, a message, no number) or still give the right answer, and the next call must work. Every allocation of every call is refused once. "
        "Distinct by (route, call, position, stickiness); non-trivial when an allocation really was refused.")
LIB = ("b.new", "B.new", "b.mns", "B.mns", "2.ks", "2.fft")


def args_for(fn, b, B):
    return (b, []) if fn[0] == "b" else ([], B) if fn[0] == "B" else (b, B)


VEC = ("op:make", "op:size", "op:fill", "op:copy", "op:append", "op:push_back", "op:resize", "op:resize2", "op:reserve", "op:assign", "op:slice", "op:setslice", "op:iterate")


def main():
    chk = common.Check("C19", RULE)
    d = common.build("prod")
    common.build_oracle()
    py = {"shipped": common.build_pyext(), "regenerated": common.build_pyext(True)}
    so, fake = common.build_so("allocfail"), common.build_so("faketime")
    k = 4 if chk.thorough else 1
    rng = chk.rng(1)
    items = []
    for fn in LIB:
        for n in (1, 2, 5, 17, 130, 1030, 1500, 2500, 4500, 9500):
            if n > 1100 and (fn.endswith("mns") or fn == "2.ks"):
                continue
            for f in ("coarse", "tube", "infeasible", "descent")[:4 if n < 200 else 2 if n < 4000 else 1]:
                for i in range(k if n > 200 else 2 * k):
                    items.append(("lib", fn, n, f, i))
    for i in range(60 * k):
        items.append(("cli", "", int(rng.choice([1, 2, 5, 30, 140])), "", i))
    items += [("cli", "", 1500, "", 1000 + i) for i in range(6)]
    for i in range(48 * k):
        items.append(("vec", VEC[i % len(VEC)], int(rng.choice([1, 3, 40, 700])), "", i))
        items.append(("py", LIB[i % 6], int(rng.choice([1, 3, 40, 130, 300])), ("tube", "descent", "tube", "badtype")[i // 6 % 4], i))
    items.sort(key=lambda it: -it[2])

    def positions(count, r):
        """Which allocations to refuse: all of the first ones, a sample of the rest, and one past the end."""
        return list(range(1, min(count, 40) + 1)) + sorted(set(r.integers(41, count + 1, 10).tolist()) if count > 40 else [])

    def body(w, it):
        what, fn, n, f, i = it
        r = chk.rng(2, n, sum(map(ord, what + fn)), sum(map(ord, f)), i)
        if what == "cli":
            return programs(n, i, r)
        bad = f in ("descent", "badtype")
        b, B = gen.FAMILIES[f if f in gen.FAMILIES else "tube"](n, r)
        if f == "descent":
            b, B = np.append(b, 0.5), np.append(B, 0.5)
            b[0] = B[0] = 0.75
            if n > 1:
                b[1:-1], B[1:-1] = np.maximum(b[1:-1], 0.75), np.maximum(B[1:-1], 0.75)
        lb, lB = args_for(fn, b, B)
        want = None if bad else float(w["oracle"]("E", len(b), lb, lB))
        brief = {"fn": fn, "n": n, "case": f, "b": list(map(float, lb[:8])), "B": list(map(float, lB[:8])), "expected": "an error" if bad else want}
        if what == "lib":
            if "lib" not in w:
                w["lib"] = common.Server([os.path.join(d, "driver")], env={"LD_PRELOAD": so}, timeout=60)
            vec = "%s %d %d %s %s" % (fn, len(lb), len(lB), common.hexs(lb), common.hexs(lB))

            def ask(pre):
                try:
                    return w["lib"].ask(pre + vec)
                except common.Died as e:
                    return "DIED " + common.describe_status(e.status) + " " + e.stderr[-800:]
                except common.Hang:
                    return "HANG"
            count = re.match(r"(\d+) 0 ", ask("!0,0,"))
            if not count:
                chk.violation("lib:%s:%s:no-answer-without-faults" % (fn, f), brief)
                return
            for sticky in (0, 1):
                for at in positions(int(count.group(1)), r):
                    a = ask("!%d,%d," % (at, sticky))
                    m = re.match(r"(\d+) (\d+) ([A-Z]) (.*)", a)
                    chk.observe((what, fn, n, f, i, at, sticky) if m and int(m.group(2)) else None, dict(brief, refused=at, sticky=sticky, answer=a[:60]))
                    chk.count("lib_calls")
                    if m:
                        chk.count("allocations_refused", int(m.group(2)))
                        chk.count("lib_outcome_" + m.group(3))
                    rep = {"kind": "lib", "fn": fn, "b": [common.hexf(x) for x in lb], "B": [common.hexf(x) for x in lB], "expected": "an error or the right value", "refused": at, "sticky": sticky}
                    det = dict(brief, refused=at, sticky=sticky, answer=a[:1200])
                    if not m:
                        chk.violation("lib:%s:%s:%s" % (fn, f, "hang" if a == "HANG" else "crash"), det, rep)
                        continue
                    if m.group(3) == "R" and (bad or abs(float.fromhex(m.group(4)) - want) > 1e-9):
                        chk.violation("lib:%s:%s:wrong-answer" % (fn, f), det, rep)
                    elif m.group(3) == "X":
                        chk.violation("lib:%s:%s:foreign-exception" % (fn, f), det, rep)
                    a = ask("")
                    if (a[0] != "E") if bad else (a[0] != "R" or abs(float.fromhex(a[2:]) - want) > 1e-9):
                        chk.violation("lib:%s:%s:harmed-afterwards" % (fn, f), dict(det, next_answer=a[:600]), rep)
            return
        if what == "vec":
            for bld in py:
                if bld not in w:
                    w[bld] = PyLib(py[bld], env={"LD_PRELOAD": so, "AF_MODULES": "crossprob:libstdc++"}, timeout=60)
                q = {"fn": fn, "args": [{"t": ("vector", "list", "numpy")[i % 3] if fn == "op:make" else "vector", "v": [0.5.hex()] * n}, {"lit": str(int(r.integers(1, 5000)))}]}
                a = w[bld].ask(dict(q, oom=[0, 0]))
                if "counted" not in a or "r" not in a:
                    chk.violation("py:%s:VectorDouble:%s:no-answer-without-faults" % (bld, fn), {"answer": a, "n": n})
                    return
                for sticky in (0, 1):
                    for at in positions(a["counted"], r):
                        x = w[bld].ask(dict(q, oom=[at, sticky]))
                        chk.observe((what, bld, fn, n, i, at, sticky) if x.get("failed") else None, {"build": bld, "call": fn, "refused": at, "sticky": sticky, "answer": x})
                        chk.count("vector_calls_" + bld)
                        chk.count("allocations_refused", x.get("failed", 0))
                        det = {"build": bld, "call": fn, "n": n, "refused": at, "sticky": sticky, "answer": x}
                        rep = {"kind": "py", "regenerate": bld == "regenerated", "request": dict(q, oom=[at, sticky])}
                        if "died" in x or "hang" in x:
                            chk.violation("py:%s:VectorDouble:%s:%s" % (bld, fn, "crash" if "died" in x else "hang"), det, rep)
                            continue
                        if "r" in x and x["r"] != a["r"] or "exc" in x and "Exception" not in x.get("mro", []):
                            chk.violation("py:%s:VectorDouble:%s:wrong-outcome" % (bld, fn), det, rep)
                        y = w[bld].ask(q)
                        if y.get("r") != a["r"]:
                            chk.violation("py:%s:VectorDouble:%s:harmed-afterwards" % (bld, fn), dict(det, next_answer=y), rep)
            return
        for bld in py:
            if bld not in w:
                w[bld] = PyLib(py[bld], env={"LD_PRELOAD": so, "AF_MODULES": "crossprob:libstdc++"}, timeout=60)
            how = ("list", "tuple", "numpy", "vector", "userseq")[i % 5]
            name, flag = PyLib.FN[fn]
            spec = lambda v: {"t": how, "v": [common.hexf(x) for x in v]}
            args = [spec(lb), spec(lB), {"lit": flag}] if fn[0] == "2" else [spec(lb if fn[0] == "b" else lB)]
            if f == "badtype":
                args[-2 if fn[0] == "2" else 0] = {"lit": "[0.5] * 20 + ['x']"}
            q = {"fn": name, "args": args}
            a = w[bld].ask(dict(q, oom=[0, 0]))
            if "counted" not in a:
                chk.violation("py:%s:%s:%s:no-answer-without-faults" % (bld, fn, f), dict(brief, answer=a))
                return
            for sticky in (0, 1):
                for at in positions(a["counted"], r)[::1 if n < 200 else 2]:
                    x = w[bld].ask(dict(q, oom=[at, sticky]))
                    chk.observe((what, bld, fn, n, f, i, at, sticky) if x.get("failed") else None, dict(brief, build=bld, refused=at, sticky=sticky, answer=x))
                    chk.count("py_calls_" + bld)
                    chk.count("py_outcome_" + (x.get("exc") or ("value" if "r" in x else "dead")))
                    chk.count("allocations_refused", x.get("failed", 0))
                    det = dict(brief, build=bld, how=how, refused=at, sticky=sticky, answer=x)
                    rep = {"kind": "py", "regenerate": bld == "regenerated", "request": dict(q, oom=[at, sticky])}
                    if "died" in x or "hang" in x:
                        chk.violation("py:%s:%s:%s:%s" % (bld, name, f, "crash" if "died" in x else "hang"), det, rep)
                        continue
                    if "r" in x and (bad or abs(float.fromhex(x["r"]) - want) > 1e-9):
                        chk.violation("py:%s:%s:%s:wrong-answer" % (bld, name, f), det, rep)
                    if "exc" in x and "Exception" not in x.get("mro", []):
                        chk.violation("py:%s:%s:%s:not-an-Exception" % (bld, name, f), det, rep)
                    if x.get("refs") or x.get("mut"):
                        chk.violation("py:%s:%s:%s:argument-harmed" % (bld, name, f), det, rep)
                    y = w[bld].ask(q)
                    if ("exc" not in y) if bad else ("r" not in y or abs(float.fromhex(y["r"]) - want) > 1e-9):
                        chk.violation("py:%s:%s:%s:harmed-afterwards" % (bld, name, f), dict(det, next_answer=y), rep)

    def programs(n, i, r):
        m = (cli.ALGOS + ("ecdf", "poisson"))[i % 6]
        b, B = gen.FAMILIES[("tube", "coarse", "grid")[i // 6 % 3]](n, r)
        if m.startswith("ecdf1"):
            b, B = (b, []) if r.random() < 0.5 else ([], B)
        if n > 1000 and m in ("ecdf2-ks2001", "ecdf1-mns2016"):
            return
        kind = ("value", "value", "value", "order", "field", "sims")[i // 6 % 6] if i < 1000 else "value"
        content = cli.bounds(b, B)
        if kind == "order":
            content = "0.5, 0.25\n\n"
        elif kind == "field":
            content = "0.1, 0.2, x\n0.5, 0.6, 0.7\n"
        path = cli.write(content)
        mc = m in ("ecdf", "poisson")
        prog = "crossprob_mc" if mc else "crossprob"
        argv = [m, path] + ([("zz" if kind == "sims" else "40")] if mc else [])
        if kind == "sims" and not mc:
            argv[0] = "nonsense"
        if kind == "order" and mc:
            kind = "value"
        exe = os.path.join(d, "bin", prog)
        base_env = {"LD_PRELOAD": so + ":" + fake, "FAKETIME": "1600000000"}
        log = path + ".log"
        run = lambda at, sticky: cli.run([exe] + argv, env=dict(base_env, AF_FAIL=str(at), AF_STICKY=str(sticky), AF_LOG=log))

        def refused():
            try:
                c, x = open(log).read().split()
                os.unlink(log)
                return int(c), int(x)
            except (OSError, ValueError):
                return 0, -1
        q = run(0, 0)
        count, _ = refused()
        want = q.value
        if (want is None) != (kind != "value") or (want is None and not q.rejected) or count == 0:
            chk.violation("%s:%s:no-answer-without-faults" % (prog, m), dict(q.brief(), file=content[:200], counted=count))
            return
        for sticky in (0, 1):
            for at in positions(count, r)[::1 if n < 200 else 3]:
                q = run(at, sticky)
                c, x = refused()
                chk.observe(("cli", tuple(argv[:1] + argv[2:]), content, at, sticky) if x else None, {"prog": prog, "args": [argv[0]] + argv[2:], "refused": at, "sticky": sticky, "status": q.status, "stdout": q.out[-60:].decode(errors="replace")})
                chk.count("program_runs")
                chk.count("allocations_refused", max(0, x))
                chk.count("program_outcome_%s" % ("hang" if q.hang else "signal" if q.status < 0 else "value" if q.status == 0 else "error"))
                rep = {"kind": "cli", "argv": [prog, m], "tail": argv[2:], "file": content, "env": {"AF_FAIL": str(at), "AF_STICKY": str(sticky)}, "expected": "an error, or %s" % want}
                det = dict(q.brief(), refused=at, sticky=sticky, file=content[:200], expected=want)
                if q.hang or q.status < 0:
                    chk.violation("%s:%s:%s:%s" % (prog, m, kind, "hang" if q.hang else "killed-by-signal"), det, rep)
                elif q.value is None and not q.rejected:
                    chk.violation("%s:%s:%s:neither-answer-nor-error" % (prog, m, kind), det, rep)
                elif q.value is not None and (want is None or abs(q.value - want) > 1.1e-6 * max(want, 1e-4)):
                    chk.violation("%s:%s:%s:wrong-answer" % (prog, m, kind), det, rep)
        os.unlink(path)

    def make():
        w = {"oracle": common.Oracle()}
        return (lambda it: body(w, it)), (lambda: [getattr(x, "s", x).close() for x in w.values()])
    common.parallel(chk, items, make)
    chk.assumptions = ["FFTW's own allocations are not refused: that library aborts by itself when memory runs out", "what a failing call leaves behind is counted by C13"]
    return chk.finish(3000, 2500)
