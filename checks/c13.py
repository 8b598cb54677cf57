"""C13: calls leak nothing and their memory is linear in n."""
import json, os, re, subprocess
import numpy as np
import common, gen, cli
from pylib import PyLib

RULE = ("A case is one call whose heap effect was accounted for block by block (LD_PRELOAD of malloc and friends): repeated identical calls, valid or rejected, must leave the number of live blocks where it was, also when one of their allocations is refused, "
        "the peak during a call must grow at most linearly with n, and LeakSanitizer must find nothing at exit; the Python module is driven the same way. Distinct by (entry point, input bits, repetition round); non-trivial when n >= 1.")
LIB = ("b.new", "B.new", "b.mns", "B.mns", "2.ks", "2.fft")
PYKINDS = re.findall(r'^    "(\w+)":', open(os.path.join(common.HARNESS, "pyleak.py")).read(), re.M)


def main():
    chk = common.Check("C13", RULE)
    prod, asan = common.build("prod"), common.build("asan")
    mt, af = common.build_so("memtrace"), common.build_so("allocfail")
    py = common.build_pyext()
    k = 6 if chk.thorough else 1
    rng = chk.rng(1)
    items = []
    for fn in LIB:
        items.append(("peak", fn))
    for i in range(8):
        items.append(("lsan", i))
    for kd in PYKINDS:
        items.append(("py", kd))
    for fn in LIB:
        for n in [0, 1, 2, 3, 10, 64, 127, 128, 129, 300, 512, 1000, 1023, 1024, 1025, 1500, 2048, 2049, 3100]:
            if fn in ("2.ks",) and n > 1100:
                continue
            if fn.endswith("mns") and n > 1500:
                continue
            items.append(("repeat", fn, n, "ok"))
        for n in (1, 3, 40, 130, 1100, 2100):
            for bad in ("descent", "nan", "negative", "above", "length", "infeasible", "zero"):
                items.append(("repeat", fn, n, bad))
    for fn, n in (("2.fft", 20000), ("b.new", 5000), ("2.fft", 9300), ("2.fft", 5200), ("B.new", 4200)):
        items.insert(0, ("repeat", fn, n, "ok"))
    for fn in LIB:
        for n in (0, 1, 2, 5, 40, 130, 400, 1030, 2100):
            if n > 400 and (fn == "2.ks" or fn.endswith("mns")):
                continue
            for how in ("ok", "ok", "descent", "nan", "length", "infeasible")[:6 if n in (1, 40, 400) else 1]:
                items.append(("oom", fn, n, how))
        for t in ("list", "vector", "userseq", "numpy"):
            items.append(("oompy", fn, t))
    for fn in ("op:make", "op:size", "op:fill", "op:copy", "op:append", "op:push_back", "op:resize", "op:resize2", "op:reserve", "op:assign", "op:slice", "op:setslice", "op:iterate"):
        items.append(("oompy", fn, "vector"))
    items.append(("oompy", "op:make", "list"))
    items.append(("mixed", 0))
    items.append(("mixed", 1))

    def args_for(fn, b, B):
        return (b, []) if fn[0] == "b" else ([], B) if fn[0] == "B" else (b, B)

    def boundaries(n, r, how):
        if n == 0:
            return np.zeros(0), np.zeros(0)
        b, B = gen.FAMILIES["coarse" if n > 150 else "tube"](n, r)
        b, B = b.copy(), B.copy()
        if how == "descent":
            b[-1], B[0] = -0.0 if n == 1 else 0.0, 1.0
            if n > 1:
                b[-2], B[1] = 0.5, 0.5
            else:
                b[0], B[0] = -1, -1
        elif how == "nan":
            b[n // 2] = B[n // 2] = float("nan")
        elif how == "negative":
            b[0] = B[0] = -0.5
        elif how == "above":
            b[-1] = B[-1] = 1.5
        elif how == "length":
            B = B[:-1]
        elif how == "infeasible":
            b[:], B[:] = 0.7, 0.3
        elif how == "zero":
            b[:], B[:] = 1.0, 1.0
        return b, B

    class Traced:
        def __init__(self):
            self.s = common.Server([os.path.join(prod, "driver")], env={"LD_PRELOAD": mt}, timeout=100)
            self.more = {}

        def call(self, fn, b, B, times=1):
            try:
                a = self.s.ask("@%s%s %d %d %s %s" % (fn, "#%d" % times if times > 1 else "", len(b), len(B), common.hexs(b), common.hexs(B)))
            except common.Died as e:
                if e.status == 77:
                    raise common.HarnessError(e.stderr)
                chk.violation("%s:crash" % fn, {"n": [len(b), len(B)], "status": common.describe_status(e.status), "stderr": e.stderr[-800:]})
                return None
            except common.Hang as e:
                chk.violation("%s:hang" % fn, {"n": [len(b), len(B)]})
                return None
            f = a.split(" ", 5)
            return [int(x) for x in f[:5]] + [f[5]]

    def replay(fn, b, B):
        return {"kind": "lib", "fn": fn, "b": [common.hexf(x) for x in b], "B": [common.hexf(x) for x in B]}

    def body(w, it):
        kind = it[0]
        if kind == "repeat":
            _, fn, n, how = it
            r = chk.rng(2, n, sum(map(ord, fn)), sum(map(ord, how)))
            b, B = args_for(fn, *boundaries(n, r, how))
            # two warm-up calls, then rounds of calls: every one must return every block it took
            grow = []
            for j in range(2 + 5):
                m = w.call(fn, b, B, 1 if j < 2 or n > 4000 else 3)
                if m is None:
                    return
                if j >= 2:
                    grow.append((m[4] - m[1], m[3] - m[0]))
                chk.observe((fn, how, n, j), {"fn": fn, "n": n, "input": how, "live bytes before": m[0], "peak": m[2], "live bytes after": m[3], "answer": m[5][:60]})
                chk.count("accounted_calls", 1 if j < 2 else 3)
                if n:
                    chk.count("calls_that_allocated", 1 if m[2] > m[0] else 0)
            if all(g[0] > 0 for g in grow[-4:]) or all(g[1] > 0 for g in grow[-4:]):
                chk.violation("%s:leak:%s" % (fn, "value" if m[5][0] == "R" else "error"), {"n": n, "input": how, "blocks and bytes gained per round of 3 identical calls": grow, "answer": m[5][:100]}, replay(fn, b, B))
        elif kind == "oom":
            # every allocation of the call is refused in turn: what the call had obtained before must have been given back
            _, fn, n, how = it
            r = chk.rng(5, n, sum(map(ord, fn)), sum(map(ord, how)))
            b, B = args_for(fn, *boundaries(n, r, how))
            if "oom" not in w.more:
                w.more["oom"] = common.Server([os.path.join(prod, "driver")], env={"LD_PRELOAD": af}, timeout=100)
            line = "@%s %d %d %s %s" % (fn, len(b), len(B), common.hexs(b), common.hexs(B))

            def ask(at, sticky):
                try:
                    m = re.match(r"(\d+) (\d+) \d+ (\d+) (\d+) (\d+) (\d+) (.*)", w.more["oom"].ask("!%d,%d,%s" % (at, sticky, line)))
                    return [int(x) for x in m.groups()[:6]] + [m.group(7)]
                except common.Died as e:
                    if e.status == 77:
                        raise common.HarnessError(e.stderr)
                except common.Hang:
                    pass
                return None         # whether a refused allocation crashes the call is C19's business
            m = [ask(0, 0) for _ in range(2)][-1]
            if m is None:
                return
            for at in range(1, m[4] + 1):
                for sticky in (0, 1):
                    gain = []
                    for j in range(5):
                        x = ask(at, sticky)
                        if x is None:
                            return
                        gain.append((x[3] - x[1], x[2] - x[0]))
                    chk.observe(("oom", fn, n, how, at, sticky) if x[5] else None, {"fn": fn, "n": n, "input": how, "refused": at, "and all later": sticky, "blocks gained": [y[0] for y in gain], "answer": x[6][:60]})
                    chk.count("refused_calls", 5)
                    if min(y[0] for y in gain[-3:]) > 0 or min(y[1] for y in gain[-3:]) > 0:
                        chk.violation("%s:leak:out-of-memory" % fn, {"n": n, "input": how, "refused allocation": at, "and all later": sticky, "blocks and bytes gained by each identical call": gain, "answer": x[6][:100]}, replay(fn, b, B))
        elif kind == "oompy":
            _, fn, t = it
            if "oompy" not in w.more:
                w.more["oompy"] = PyLib(py, env={"LD_PRELOAD": af, "AF_MODULES": "crossprob:libstdc++"}, timeout=60)
            spec = {"t": t, "v": [0.5.hex()] * 40}
            name, flag = PyLib.FN.get(fn, (fn, None))
            q = {"fn": name, "args": [spec, {"lit": "300"}] if fn[:3] == "op:" else [spec, spec, {"lit": flag}] if fn[0] == "2" else [spec]}
            a = w.more["oompy"].ask(dict(q, oomleak=[0, 0, 2]))
            for at in range(1, a.get("counted", 0) + 1):
                for sticky in (0, 1):
                    x = w.more["oompy"].ask(dict(q, oomleak=[at, sticky, 30]))
                    if "gain" not in x:
                        return
                    chk.observe(("oompy", fn, t, at, sticky) if x["failed"] else None, dict(x, call=fn, argument=t, refused=at))
                    chk.count("refused_python_calls", 30)
                    if x["gain"] >= 0.8 * x["calls"] and w.more["oompy"].ask(dict(q, oomleak=[at, sticky, 90]))["gain"] >= 45:
                        chk.violation("python:leak:out-of-memory:%s" % fn, dict(x, call=fn, argument=t, refused=at, sticky=sticky), {"kind": "py", "request": dict(q, oomleak=[at, sticky, 90])})
        elif kind == "mixed":
            # a long mixed history: rounds of the same calls in different order leave the heap where it was
            r = chk.rng(3, it[1])
            calls = []
            for n in (1, 5, 40, 129, 300, 1030, 2100):
                for fn in LIB:
                    if n > 400 and (fn == "2.ks" or fn.endswith("mns")):
                        continue
                    for how in ("ok", "nan", "length", "descent"):
                        calls.append((fn,) + tuple(args_for(fn, *boundaries(n, r, how))))
            levels = []
            for rd in range(8):
                for j in r.permutation(len(calls)):
                    m = w.call(*calls[j])
                    if m is None:
                        return
                    chk.observe((it, rd, int(j)), None)
                    chk.count("accounted_calls")
                levels.append((m[4], m[3]))
            chk.maximum("mixed_rounds", len(levels))
            # the last call of a round and the protocol's own buffers differ a little, so allow a few blocks overall
            if all(levels[j + 1][0] > levels[j][0] for j in range(3, 7)) and levels[7][0] - levels[3][0] > 16:
                chk.violation("mixed:leak", {"live blocks and bytes after each round": levels})
        elif kind == "peak":
            fn = it[1]
            sizes = {"2.ks": [250, 500, 1000, 2000, 4000], "b.mns": [250, 500, 1000, 2000, 4000], "B.mns": [250, 500, 1000, 2000, 4000]}.get(fn, [2000, 4000, 8000, 16000])
            peaks = []
            for n in sizes:
                i = np.arange(1, n + 1)
                b, B = np.clip(i / n - 1 / np.sqrt(n), 0, 1), np.clip((i - 1) / n + 1 / np.sqrt(n), 0, 1)
                best = None
                for rep in range(2):
                    m = w.call(fn, *args_for(fn, b, B))
                    if m is None:
                        return
                    p = m[2] - m[0]
                    best = p if best is None else min(best, p)
                    chk.observe(("peak", fn, n, rep), {"fn": fn, "n": n, "peak bytes": p})
                peaks.append(best)
            chk.maximum("peak_bytes_per_n_" + fn, max(p / n for p, n in zip(peaks, sizes)))
            # slope between the largest two sizes, against the average cost per element: linear growth keeps it bounded
            c = (peaks[-1] - peaks[-2]) / (sizes[-1] - sizes[-2])
            if c > 2.0 * peaks[-2] / sizes[-2] + 64 or peaks[-1] / sizes[-1] > 2000:
                chk.violation("%s:memory-not-linear" % fn, {"n": sizes, "peak bytes": peaks})
        elif kind == "lsan":
            r = chk.rng(4, it[1])
            env = dict(common.SAN_ENV)
            lib = common.Lib(asan, env=env, timeout=100)
            hist = []
            for j in range(60):
                fn = LIB[int(r.integers(6))]
                n = int(r.choice([1, 3, 40, 129, 300, 1030, 2100]))
                if n > 400 and (fn == "2.ks" or fn.endswith("mns")):
                    n = 100
                how = ["ok", "ok", "ok", "nan", "length", "descent", "negative", "above", "infeasible"][int(r.integers(9))]
                b, B = args_for(fn, *boundaries(n, r, how))
                kd, a = lib.call(fn, b, B)
                hist.append((fn, n, how, kd))
                chk.observe(("lsan", it[1], j, fn, n, how), None)
                if kd in ("DIED", "HANG"):
                    chk.violation("asan:%s:%s" % (fn, "hang" if kd == "HANG" else "crash"), {"history": hist[-5:], "answer": a[:1500]}, replay(fn, b, B))
                    return
            st, err = lib.close()
            if "LeakSanitizer has encountered a fatal error" in err:
                chk.count("lsan_unavailable")
            elif st != 0:
                chk.violation("lsan:leak", {"status": common.describe_status(st), "report": err[:3000], "history": hist[-20:]})
            else:
                chk.count("lsan_clean_exits")
        else:
            kd = it[1]
            calls, rounds = (400, 7) if "fft" not in kd else (60, 7)
            env = {"LD_PRELOAD": mt, "PYTHONPATH": py, "PYTHONMALLOC": "malloc", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONNOUSERSITE": "1"}
            q = cli.run(["/usr/bin/python3", "-W", "ignore", os.path.join(common.HARNESS, "pyleak.py"), kd, str(rounds), str(calls * k)], env=env, timeout=150)
            if q.hang or q.status != 0:
                if q.status < 0 or q.hang:
                    chk.violation("python:%s:%s" % (kd, "hang" if q.hang else "crash"), q.brief())
                    return
                if b"Error" in q.err and kd.startswith("ok"):
                    chk.violation("python:%s:exception" % kd, q.brief())
                    return
                raise common.HarnessError("pyleak failed: %s" % q.brief())
            a = json.loads(q.out)
            for j in range(rounds):
                chk.observe(("py", kd, j), {"python call": kd, "result": a["result"], "live blocks after rounds": [x[1] for x in a["live"]]})
            chk.count("python_calls", rounds * calls * k)
            blocks, nbytes = [x[1] for x in a["live"]], [x[0] for x in a["live"]]
            g = [blocks[j + 1] - blocks[j] for j in range(rounds - 1)][-4:]
            h = [nbytes[j + 1] - nbytes[j] for j in range(rounds - 1)][-4:]
            if all(x >= calls * k * 0.4 for x in g) or all(x >= 16 * calls * k for x in h):
                chk.violation("python:leak:%s:%.0f-blocks-per-call" % (kd, np.mean(g) / (calls * k)), {"calls per round": calls * k, "live blocks": blocks, "live bytes": nbytes, "result": a["result"]}, {"kind": "pyleak", "what": kd})

    def make():
        w = Traced()
        return (lambda it: body(w, it)), lambda: [getattr(x, "s", x).close() for x in [w.s] + list(w.more.values())]
    common.parallel(chk, items, make)
    if chk.counts.get("lsan_clean_exits", 0) == 0 and not chk.violations:
        chk.assumptions.append("LeakSanitizer could not run here; leaks are decided by the block accounting alone")
    chk.assumptions += ["FFTW's process-wide planner tables are warm after two identical calls", "a leak is a gain of live blocks or bytes in every one of the last rounds of identical calls"]
    return chk.finish(1500, 1000)
