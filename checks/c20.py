"""C20: computing has no side effects on the host."""
import json, os, shutil
import numpy as np
import common, gen, cli
from pylib import PyLib
from c06 import offend, KINDS

RULE = ("A case is one library call, Python import or call, or program run before and after which the state of its process was compared item by item (floating-point control, rounding, denormals, locale, signal handlers and mask, open files and the "
        "bytes written to stdout and stderr, environment, working directory and the files in it, limits, priority, affinity, threads, children, timers, C random state, iostream state, interpreter state) and during which system calls that "
        "create or change files, sockets, processes or limits were trapped (seccomp). Library and Python calls are repeated in four rounding modes and with denormals flushed; their answers must stay right. Distinct by (route, call, mode); all are non-trivial.")
# what harness/driver.cc's deliberate effects must be seen as
SEEN = ("rounding", "sse-control", "sse-control", "sse-control", "locale-0", "locale-c++", "thread-locale", "signal-8=", "signal-mask", "file-", "environment", "file-1=", "file-2=", "cout", "cout", "tie", "handlers", "handlers", "c-random", "c-random",
        "drand48", "status-Threads", "system-call-37=", "system-call-85", "system-call-257", "system-call-", "system-call-95", "system-call-80", "system-call-302", "system-call-141", "system-call-203", "system-call-87", "status-Name", "signal-stack", "fp-flags", "cin", "clog", "synchronised")
LIB = ("b.new", "B.new", "b.mns", "B.mns", "2.ks", "2.fft")


def with_monitor(chk, d, hs):
    """The monitor is not blind: each deliberate side effect, in one process, is reported."""
    here = os.path.join(common.scratch(), "blind")
    os.makedirs(here)
    s = common.Server([os.path.join(d, "driver")], env={"LD_PRELOAD": hs}, timeout=60, cwd=here)
    for k, name in enumerate(SEEN):
        try:
            a = s.ask("%%0,host.%d 0 0" % k)
        except (common.Died, common.Hang) as e:
            raise common.HarnessError("deliberate effect %d: %r %s" % (k, e, getattr(e, "stderr", "")))
        head, _, answer = a.partition(" | ")
        trap = head.split(" ")[0]
        if name not in head and not (trap != "0" and name.startswith("system-call")):
            raise common.HarnessError("deliberate effect %d (%s) was not noticed: %s" % (k, name, a[:500]))
        chk.count("deliberate_effects_noticed")
    s.kill()


def main():
    chk = common.Check("C20", RULE)
    d = common.build("prod", reader=True)
    common.build_oracle()
    py = {"shipped": common.build_pyext(), "regenerated": common.build_pyext(True)}
    hs, fake = common.build_so("hoststate"), common.build_so("faketime")
    k = 8 if chk.thorough else 1
    rng = chk.rng(1)
    fams = list(gen.FAMILIES)
    with_monitor(chk, d, hs)
    items = []
    for fn in LIB:
        for n in (1, 2, 16, 127, 128, 129, 300, 700, 1024, 1100, 1700, 2049, 3100, 4200) + ((6000, 9000) if chk.thorough else ()):
            for f in ("tube", "coarse", "tiny"):
                if not (f == "tiny" and n > 300) and not (fn == "2.ks" and n > (700 if f == "coarse" else 4200)):
                    items += [("lib", fn, n, f, m, 0) for m in (range(5) if n < 3000 else (0, 1 + n // 100 % 4))]
    items += [("lib", LIB[i % 6], int(rng.choice([1, 2, 3, 5, 9, 20, 50, 130, 200])), fams[i % len(fams)], i // 6 % 5, 1 + i) for i in range(400 * k)]
    items += [("bad", LIB[i % 6], int(rng.choice([1, 2, 3, 5, 9, 20, 50, 130, 200])), (KINDS + ("length", "crossed"))[i % (len(KINDS) + 2)], i // 6 % 5, i) for i in range(200 * k)]
    items += [("reader", "", int(rng.choice([1, 2, 3, 9, 50, 400, 3000])), ("value", "tight", "value", "empty-side", "field", "value", "one-line", "missing", "empty", "directory", "order")[i // 5 % 11], i % 5, i) for i in range(220 * k)]
    items += [("import", "", 0, "", 0, i) for i in range(2 * k)]
    items += [("py", LIB[i % 6], int(rng.choice([1, 2, 5, 40, 130, 300, 1100, 2600])), ("tube", "descent", "coarse", "nan", "type", "length")[i // 6 % 6], i // 2 % 4, i) for i in range(160 * k)]
    items += [("cli", (cli.ALGOS + ("ecdf", "poisson"))[i % 6], int(rng.choice([1, 2, 5, 40, 130, 1100, 2600])), ("value", "trapped", "order", "field", "empty", "value", "trapped", "usage", "trapped")[i // 6 % 9], 0, i) for i in range(108 * k)]
    items.sort(key=lambda it: -it[2] * (3 if it[1].endswith(("mns", "ks")) else 1))
    work = os.path.join(common.scratch(), "work")
    os.makedirs(work, exist_ok=True)

    def listing(path):
        out = {}
        for root, ds, fs in os.walk(path):
            for x in ds + fs:
                p = os.path.join(root, x)
                s = os.lstat(p)
                out[os.path.relpath(p, path)] = (s.st_mode, s.st_size if x in fs else 0, s.st_mtime_ns if x in fs else 0, s.st_uid, open(p, "rb").read() if x in fs else b"")
        return out

    def body(w, it):
        what, fn, n, f, mode, i = it
        r = chk.rng(2, n, sum(map(ord, what + fn)), sum(map(ord, f)), i)
        here = os.path.join(work, str(os.getpid()))
        os.makedirs(here, exist_ok=True)
        env = {"HOME": here, "TMPDIR": here}
        if what in ("lib", "bad"):
            b, B = gen.FAMILIES[f if what == "lib" else "tube"](n, r)
            if what == "bad":
                pos = int(r.integers(n))
                if f == "length":
                    fn = "2.ks" if i % 2 else "2.fft"
                    b, B = (b[:-1], B) if i % 4 < 2 else (b, np.append(B, 1.0))
                elif f == "crossed":
                    fn, b, B = "2.ks" if i % 2 else "2.fft", np.full(n, 0.75), np.full(n, 0.5)
                else:
                    x, y = offend(b, f, pos, r), offend(B, f, pos, r)
                    if x is None or y is None:
                        return
                    b, B = (x, y) if fn[0] != "2" else [(x, B), (b, y)][i // 6 % 2]
            b, B = (b, []) if fn[0] == "b" else ([], B) if fn[0] == "B" else (b, B)
            if "lib" not in w:
                w["lib"] = common.Server([os.path.join(d, "driver")], env=dict(env, LD_PRELOAD=hs), timeout=120, cwd=here)
            brief = {"fn": fn, "n": n, "case": f, "mode": mode, "b": list(map(float, b[:8])), "B": list(map(float, B[:8]))}
            rep = {"kind": "lib", "fn": fn, "b": [common.hexf(x) for x in b], "B": [common.hexf(x) for x in B], "expected": "no side effect", "mode": mode}
            try:
                a = w["lib"].ask("%%%d,%s %d %d %s %s" % (mode, fn, len(b), len(B), common.hexs(b), common.hexs(B)))
            except (common.Died, common.Hang) as e:
                chk.violation("lib:%s:no-answer" % fn, dict(brief, error=repr(e), stderr=getattr(e, "stderr", "")[-800:]), rep)
                return
            head, _, answer = a.partition(" | ")
            trap, count, changed = (head.split(" ", 2) + [""])[:3]
            ndiff = int(changed.split(" ")[0])
            chk.observe((what, fn, n, f, mode, i), dict(brief, items_compared=int(count), changed=ndiff, answer=answer[:40]))
            chk.count("lib_calls")
            chk.count("lib_calls_with_trap", trap == "0")
            chk.count("items_compared", int(count))
            if ndiff:
                chk.violation("lib:%s:changed:%s" % (fn, changed.split(" ")[1].lstrip("+-").split("=")[0]), dict(brief, changed=changed), rep)
            if what == "bad" and f != "crossed":
                if answer[0] != "E" and (mode != 4 or f in ("above_one", "nan", "nans", "inf", "length")):      # a flushed denormal is no offence
                    chk.violation("lib:%s:not-rejected" % fn, dict(brief, answer=answer[:300]), rep)
            else:
                want = 0.0 if f == "crossed" else float(w["oracle"]("E", n, b, B))
                if answer[0] != "R" or not abs(float.fromhex(answer[2:]) - want) <= 1e-9:
                    chk.violation("lib:%s:wrong-answer:mode%d" % (fn, mode), dict(brief, answer=answer[:300], expected=want), rep)
                elif want:
                    chk.maximum("max_error_mode%d" % mode, abs(float.fromhex(answer[2:]) - want))
            return
        if what == "reader":
            b, B = gen.FAMILIES["tube"](n, r)
            if f == "empty-side":
                b, B = [(b, []), ([], B), ([], [])][i // 55 % 3]
            content = {"field": "0.1, x\n0.2, 0.3\n", "one-line": "0.1, 0.2\n", "empty": "", "order": "0.5, 0.25\n0.75, 2\n"}.get(f, cli.bounds(b, B))
            if f == "tight":
                content = content.replace(" ", "").rstrip("\n")
            path = os.path.join(here, "reader%d" % i)
            if f == "directory":
                os.mkdir(path)
            elif f != "missing":
                with open(path, "w") as fh:
                    fh.write(content)
            if "reader" not in w:
                w["reader"] = common.Server([os.path.join(d, "driver")], env=dict(env, LD_PRELOAD=hs), timeout=120, cwd=here)
            brief = {"fn": "read_and_check_boundaries_file", "n": n, "case": f, "mode": mode, "file": content[:200]}
            try:
                a = w["reader"].ask("%%%d,file:%s 0 0" % (mode, path))
            except (common.Died, common.Hang) as e:
                chk.violation("reader:%s:no-answer" % f, dict(brief, error=repr(e), stderr=getattr(e, "stderr", "")[-800:]), None)
                return
            head, _, answer = a.partition(" | ")
            trap, count, changed = (head.split(" ", 2) + [""])[:3]
            chk.observe((what, n, f, mode, i), dict(brief, items_compared=int(count), answer=answer[:40]))
            chk.count("reader_calls")
            chk.count("items_compared", int(count))
            if int(changed.split(" ")[0]):
                chk.violation("reader:%s:changed:%s" % (f, changed.split(" ")[1].lstrip("+-").split("=")[0]), dict(brief, changed=changed), None)
            if f in ("value", "tight", "empty-side"):
                want = 4096.0 * len(b) + len(B) + (sum(b) + sum(B)) / (2 * (len(b) + len(B)) + 1)
                if answer[0] != "R" or not abs(float.fromhex(answer[2:]) - want) <= 1e-6:
                    chk.violation("reader:%s:wrong-answer:mode%d" % (f, mode), dict(brief, answer=answer[:300], expected=want), None)
            elif f != "order" and answer[0] != "E":
                chk.violation("reader:%s:not-rejected" % f, dict(brief, answer=answer[:300]), None)
            if os.path.isdir(path):
                os.rmdir(path)
            elif os.path.exists(path):
                os.unlink(path)
            return
        if what in ("py", "import"):
            for bld in py:
                if what == "import" or bld not in w:
                    if bld in w:
                        w[bld].close()
                    w[bld] = common.Server(["/usr/bin/python3", "-W", "ignore", os.path.join(common.HARNESS, "pyhost.py"), hs], timeout=120, cwd=here,
                                           env=dict(env, PYTHONPATH=py[bld], PYTHONNOUSERSITE="1", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1"))
                    try:
                        a = json.loads(w[bld].ask(""))
                    except (common.Died, common.Hang) as e:
                        raise common.HarnessError("pyhost: %r %s" % (e, getattr(e, "stderr", "")[-1500:]))
                    chk.observe((bld, "import", i, os.getpid()), {"build": bld, "import": a})
                    chk.count("py_imports")
                    chk.count("items_compared", a["items"])
                    if a["import"]:
                        chk.violation("py:%s:import:changed:%s" % (bld, a["import"][0].lstrip("+-").split("=")[0]), {"build": bld, "changed": a["import"]}, None)
                if what == "import":
                    continue
                b, B = gen.FAMILIES[f if f in gen.FAMILIES else "tube"](n, r)
                if fn == "2.ks" and n > 300:
                    return
                name, flag = PyLib.FN[fn]
                lb, lB = list(map(float, b)), list(map(float, B))
                if f == "descent":
                    lb, lB = [0.75] + lb + [0.5], [0.75] + lB + [0.5]
                elif f == "nan":
                    lb[-1] = lB[-1] = float("nan")
                args = [repr(lb), repr(lB), flag] if fn[0] == "2" else [repr(lb if fn[0] == "b" else lB)]
                if f == "type":
                    args[0] = ["'x'", "[1, 'x']", "None", "[None]", "[[0.5]]"][i % 5]
                elif f == "length":
                    args = args + ["1"] if fn[0] != "2" else [args[0], "[0.5]*%d" % (n + 1), flag]
                try:
                    a = json.loads(w[bld].ask(json.dumps({"fn": name, "args": args, "mode": mode})))
                except (common.Died, common.Hang) as e:
                    chk.violation("py:%s:%s:no-answer" % (bld, name), {"case": f, "n": n, "error": repr(e), "stderr": getattr(e, "stderr", "")[-800:]}, None)
                    continue
                brief = {"build": bld, "fn": name, "n": n, "case": f, "mode": mode}
                chk.observe((what, bld, fn, n, f, mode, i), dict(brief, answer=a))
                chk.count("py_calls_" + bld)
                rep = {"kind": "py", "regenerate": bld == "regenerated", "request": {"fn": name, "args": [{"lit": x} for x in args]}, "expected": "no side effect"}
                if a["diff"]:
                    chk.violation("py:%s:%s:changed:%s" % (bld, name, a["diff"][0].lstrip("+-").split("=")[0]), dict(brief, changed=a["diff"]), rep)
                if f in ("tube", "coarse"):
                    v = float(w["oracle"]("E", n, *((b, []) if fn[0] == "b" else ([], B) if fn[0] == "B" else (b, B))))
                    if "r" not in a or not abs(float.fromhex(a["r"]) - v) <= 1e-9:
                        chk.violation("py:%s:%s:wrong-answer" % (bld, name), dict(brief, answer=a, expected=v), rep)
                elif "exc" not in a:
                    chk.violation("py:%s:%s:no-exception" % (bld, name), dict(brief, answer=a), rep)
            return
        m = fn
        mc = m in ("ecdf", "poisson")
        if m in ("ecdf2-ks2001",) and n > 300:
            n = 300
        b, B = gen.FAMILIES[fams[i % len(fams)] if i % 2 else "tube"](n, r)
        if m.startswith("ecdf1"):
            b, B = (b, []) if r.random() < 0.5 else ([], B)
        content = {"order": "0.5, 0.25\n0.1, x", "field": "0.1, x\n\n", "empty": ""}.get(f, cli.bounds(b, B))
        run_dir = os.path.join(here, "r%d" % i)
        os.makedirs(os.path.join(run_dir, "sub"))
        name = ["bounds.txt", "a b.csv", "sub/x"][i % 3]
        with open(os.path.join(run_dir, name), "w") as fh:
            fh.write(content)
        os.chmod(os.path.join(run_dir, name), [0o644, 0o444, 0o600][i // 3 % 3])
        before = listing(run_dir)
        log = os.path.join(here, "log%d" % i)
        e = {"HOME": run_dir, "TMPDIR": run_dir, "LD_PRELOAD": fake + (":" + hs if f == "trapped" else ""), "FAKETIME": "1600000000"}
        if f == "trapped":
            e["HS_LOG"] = log
        argv = ["crossprob_mc", m, name, "300"] if mc else ["crossprob", m, name]
        if f == "usage":
            argv = argv[:2] if i % 2 else [argv[0], "nonsense"] + argv[2:]
        q = cli.run([os.path.join(d, "bin", argv[0])] + argv[1:], env=e, cwd=run_dir)
        after = listing(run_dir)
        rep = {"kind": "cli", "argv": argv[:2], "tail": argv[3:], "file": content, "expected": "no side effect"}
        brief = dict(q.brief(), case=f, file_name=name)
        chk.observe((what, m, content, f, i), {"prog": argv[0], "args": argv[1:], "case": f, "status": q.status, "stdout": q.out[-60:].decode(errors="replace")})
        chk.count("program_runs")
        if before != after:
            x = sorted(p for p in set(before) | set(after) if before.get(p) != after.get(p))
            chk.violation("%s:%s:files-changed" % (argv[0], f), dict(brief, changed=x), rep)
        if f == "trapped":
            lines = open(log, errors="replace").read().splitlines() if os.path.exists(log) else []
            if "armed" not in lines:
                raise common.HarnessError("hoststate was not armed")
            chk.count("program_runs_with_trap", "notrap" not in lines)
            opened = [x[5:] for x in lines if x.startswith("open:")]
            other = [x for x in opened if os.path.normpath(os.path.join(run_dir, x)) != os.path.join(run_dir, name) and not x.startswith(("/usr/", "/lib", "/etc/", "/proc/", "/sys/", "/dev/"))]
            chk.count("files_opened_by_programs", len(opened))
            if other:
                chk.violation("%s:%s:reads-another-file" % (argv[0], f), dict(brief, opened=opened), rep)
            if "notrap" not in lines and f == "trapped" and not opened and q.value is not None:
                raise common.HarnessError("an answer without the boundaries file being opened: the monitor is blind")
            bad = [x for x in lines if x not in ("armed", "notrap") and not x.startswith("open:")]
            if bad:
                chk.violation("%s:%s:system-call-%s" % (argv[0], f, bad[0]), dict(brief, system_calls=bad), rep)
            os.unlink(log)
        if q.err and q.value is not None:
            chk.violation("%s:%s:writes-to-stderr" % (argv[0], f), dict(brief, stderr=q.err[:500].decode(errors="replace")), rep)
        if f in ("value", "trapped") and q.value is None or f not in ("value", "trapped", "order", "empty") and q.value is not None:
            chk.violation("%s:%s:unexpected-outcome" % (argv[0], f), brief, rep)
        shutil.rmtree(run_dir)

    def make():
        w = {"oracle": common.Oracle()}
        return (lambda it: body(w, it)), (lambda: [getattr(x, "s", x).close() for x in w.values()])
    common.parallel(chk, items, make)
    chk.assumptions = ["errno, the heap and memory mappings are not compared", "one-off effects of the dynamic loader before main are not seen"]
    return chk.finish(1200, 1200)


if __name__ == "__main__":
    main()
