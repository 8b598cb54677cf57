"""C08: the command-line contract of both programs."""
import os, resource, signal, tempfile
import numpy as np
import common, gen, cli

RULE = ("A case is one run of one of the two programs with a given argument list, file, standard output and surroundings (production or sanitizer build). It must either exit 0 with exactly one line, a number "
        "in [0,1], on standard output, or exit nonzero with an explanation and no number; classes known to be errors must take the second route and well-formed requests the first. "
        "Distinct by (build, arguments, file bytes, output kind); non-trivial when the run is not a usage error.")

BADNAMES = ["", " ", "ecdf2", "ecdf1", "ecdf", "poisson", "ecdf2-ks", "ecdf2-ks2001 ", " ecdf2-ks2001", "ECDF2-KS2001", "ecdf2-mn2017x", "ecdf2-mn201", "ecdf1-mns2017", "ecdf1-New", "ecdf1-new2",
            "ecdf1_new", "ecdf1-m2020", "-h", "--help", "--version", "ecdf2-ks2001,ecdf1-new", "a" * 5000, "%s%n", "\xff\xfe", "0", "--", "new", "ks2001", "mn2017", "mns2016"]
BADMC = ["", "ecdf2", "ecdf1-new", "Ecdf", "ecdf ", " ecdf", "poisso", "poissonx", "POISSON", "ecdf2-ks2001", "-h", "--help", "a" * 3000, "poisson\n"]
BADSIMS = ["", " ", "abc", "10x", "x10", "99999999999999999999", "9223372036854775808", "-9223372036854775809", "0", "-1", "-5", "-1000", "-0", "+0", "00", "1e6", "1.5", "0x10", "10 ", "10\n", "--1", "+",
           "-", "1,000", "1_000", "ten", "nan", "inf", "0.9", "-99999999999999999999", "10 20", "1000000k"]


def near(name):
    """Names that look like one of the commands but are none."""
    out = {name.upper(), name.capitalize(), name.title(), name.swapcase(), name.replace("-", "_"), name.replace("-", ""), name.replace("-", " "), name + " ", " " + name, name + "\t", name + "\n", name + "-", "-" + name, "--" + name, name + name, name[::-1]}
    for i in range(len(name)):
        out |= {name[:i], name[i:] if i else "", name[:i] + name[i + 1:], name[:i] + name[i] + name[i:], name[:i] + name[i].upper() + name[i + 1:], name[:i] + "x" + name[i + 1:]}
    return sorted(x for x in out if x not in cli.ALGOS + ("ecdf", "poisson"))


PLACES = ("bare", "gone", "nostdin", "noerr", "stack", "files", "signals")        # empty environment, deleted directory, ...
GOODSIMS = ["1", "2", "10", "+7", " 12", "007", "1000", "65537"]


def mutate(r, data):
    data = bytearray(data)
    for _ in range(int(r.integers(1, 6))):
        z = int(r.integers(9))
        p = int(r.integers(0, len(data) + 1))
        if z == 0 and data:
            data[p % len(data)] = int(r.integers(256))
        elif z == 1:
            data[p:p] = bytes(r.choice(list(b",.\n-+eE 0123456789\t\r\0x"), int(r.integers(1, 5))).tolist())
        elif z == 2 and data:
            q = min(len(data), p + int(r.integers(1, 12)))
            del data[p:q]
        elif z == 3:
            data[p:p] = r.choice([b"nan", b"inf", b"-inf", b"1e308", b"-1", b"2", b"1e-400", b"1e999", b"0x1p-1", b"\n\n", b",,", b"-0", b"9" * 400, b"0." + b"0" * 700 + b"1"]).item() if False else \
                [b"nan", b"inf", b"-inf", b"1e308", b"-1", b"2", b"1e-400", b"1e999", b"0x1p-1", b"\n\n", b",,", b"-0", b"9" * 400, b"0." + b"0" * 700 + b"1"][int(r.integers(14))]
        elif z == 4 and data:
            del data[p % len(data):]
        elif z == 5:
            data[p:p] = data[:p]
        elif z == 6:
            data[p:p] = b" " * int(r.integers(1, 9000))
        elif z == 7:
            data = data.replace(b"\n", [b"\r\n", b"", b"\n\n", b"\0", b" \n"][int(r.integers(5))])
        else:
            data[p:p] = bytes(r.integers(0, 256, int(r.integers(1, 60))).astype(np.uint8))
    return bytes(data[:60000])


def main():
    chk = common.Check("C08", RULE)
    builds = {f: common.build(f, driver=False) for f in ("prod", "asan")}
    k = 12 if chk.thorough else 1
    good2 = cli.write("0, 0.15, 0.5,\n0.7, 0.9, 1\n", "good2.txt")
    goodb = cli.write("0, 0.15, 0.5\n\n", "goodb.txt")
    goodB = cli.write("\n0.7, 0.9, 1\n", "goodB.txt")
    longer = cli.write("0, 0.1, 0.2, 0.3\n0.8, 0.9, 1\n", "longer.txt")
    shorter = cli.write("0, 0.1\n0.8, 0.9, 1\n", "shorter.txt")
    empty2 = cli.write("\n\n", "empty2.txt")
    d = os.path.dirname(good2)
    dangling = os.path.join(d, "dangling")
    os.symlink("nowhere", dangling)
    loop = os.path.join(d, "loop")
    os.symlink("loop", loop)
    nofiles = [os.path.join(d, "missing.txt"), "", d, "/dev/null", dangling, loop, os.path.join(good2, "x"), "x" * 5000, "/" + "y/" * 3000, good2 + " ", "--help", "-"]

    items = []
    C, M = "crossprob", "crossprob_mc"
    add = lambda prog, args, want, out="pipe", build=None, file=None: items.append((prog, args, want, out, build, file))
    # want: 'reject' | 'value' | 'any' | 'fail' (nonzero status is all that can be asked for) | a number expected exactly
    for a in ([], ["ecdf2-ks2001"], [good2], ["ecdf2-ks2001", good2, "x"], ["ecdf2-ks2001", good2, ""], ["ecdf2-mn2017", good2, "100"], ["a"] * 7, [""], ["", "", ""], ["--help"], ["ecdf1-new", goodb, goodB]):
        add(C, a, "reject")
    for a in ([], ["ecdf"], ["ecdf", good2], ["ecdf", good2, "10", "x"], ["ecdf", good2, "10", ""], ["10"], ["poisson", "5", good2, "100"], ["", "", "", "", ""], [good2, "10"]):
        add(M, a, "reject")
    for nm in BADNAMES:
        for f in (good2, goodb, goodB):
            add(C, [nm, f], "reject")
    for nm in BADMC:
        for f in (good2, goodB):
            add(M, [nm, f, "10"], "reject")
    for nm in cli.ALGOS + ("ecdf", "poisson"):
        for x in near(nm):
            add(C, [x, goodb], "reject")
            add(M, [x, goodB, "10"], "reject")
    for f in nofiles:
        for a in cli.ALGOS:
            add(C, [a, f], "reject")
        for m in ("ecdf", "poisson"):
            add(M, [m, f, "10"], "reject")
    for s in BADSIMS:
        for m in ("ecdf", "poisson"):
            for f in (good2, goodb, goodB, longer, empty2):
                add(M, [m, f, s], "reject")
    for s in GOODSIMS:
        for m in ("ecdf", "poisson"):
            for f in (good2, goodb, goodB):
                add(M, [m, f, s], "value")
    for a in ("ecdf1-new", "ecdf1-mns2016"):
        for f in (good2, longer, shorter, empty2):
            add(C, [a, f], "reject")
        add(C, [a, goodb], "value")
        add(C, [a, goodB], "value")
    for a in ("ecdf2-ks2001", "ecdf2-mn2017"):
        add(C, [a, longer], "reject")
        add(C, [a, shorter], "reject")
        add(C, [a, empty2], "any")
        for f in (good2, goodb, goodB):
            add(C, [a, f], "value")
    for m in ("ecdf", "poisson"):
        add(M, [m, empty2, "10"], "any")
        add(M, [m, shorter, "10"], "value")
        add(M, [m, longer, "10"], "value")
    for o in ("full", "closed", "epipe", "readonly", "allclosed"):
        for a in cli.ALGOS:
            add(C, [a, goodb], "fail", o)
            add(C, [a, goodB], "fail", o)
            add(C, ["x" + a, good2], "fail", o)
        for a in ("ecdf2-ks2001", "ecdf2-mn2017"):
            add(C, [a, good2], "fail", o)
        for m in ("ecdf", "poisson"):
            add(M, [m, good2, "20"], "fail", o)
            add(M, [m, longer, "20"], "fail", o)
            add(M, [m, good2, "zz"], "fail", o)
        add(C, [], "fail", o)
        add(M, [], "fail", o)
    fixed = len(items)
    for n in (1, 2, 100, 127, 128, 129, 1000, 2048, 3000):          # large well-formed requests succeed
        for a in cli.ALGOS + ("ecdf", "poisson"):
            items.append(("large", (n, a), "value", "pipe", None, None))
    # a million numbers and more: nothing of that size fits on a stack
    for n in (1200000, 2100000):
        for a in cli.ALGOS + ("ecdf", "poisson"):
            items.insert(0, ("million", (n, a), "reject", "pipe", None, None))
        for a in ("ecdf", "poisson"):
            items.insert(0, ("million", (n, a + "!"), 1.0 if a == "ecdf" else "value", "pipe", None, None))
    fixed = len(items)
    for i in range(260 * k):
        items.append(("lost", i, "fail", ("full", "closed", "epipe", "readonly", "allclosed", "limit")[i % 6], None, None))
    for i in range(1200 * k):
        items.append(("valid", i, "value", "pipe", None, None))
    for i in range(1800 * k):
        items.append(("fuzz", i, "any", "pipe", None, None))

    def body(it):
        prog, args, want, out, bld, file = it
        tmp, where = None, ""
        if prog == "million":
            n, m = args
            r = chk.rng(8, n, sum(map(ord, m)))
            if m.endswith("!"):
                m = m[:-1]
                content = (",".join(["0"] * n) + "\n\n") if m == "ecdf" or n > 2000000 else ("\n" + ",".join(["1"] * n) + "\n")
                args = [m, "", "1"]
            else:               # two falling numbers at the end, or an unknown word
                content = ",".join(["0"] * (n - 2) + (["0.5", "0.25"] if m in cli.ALGOS else ["0.5", "x"])) + "\n\n"
                args = [m, ""] + ([] if m in cli.ALGOS else ["2"])
            prog = M if m in ("ecdf", "poisson") else C
            args[1] = tmp = cli.write(content)
            file, fuzzed, which = content[-40:].encode() + b" (%d numbers)" % n, False, ["prod"]
        elif prog in ("valid", "fuzz", "large", "lost"):
            r = chk.rng(7, sum(map(ord, prog)), args if prog != "large" else args[0])
            if prog == "large":
                n, m = args
                b, B = gen.FAMILIES["ks"](n, r)
            else:
                n = int(r.choice([1, 1, 2, 3, 5, 10, 30, 150]))
                b, B = gen.FAMILIES[list(gen.FAMILIES)[args % len(gen.FAMILIES)]](n, r)
                m = (cli.ALGOS + ("ecdf", "poisson"))[int(r.integers(6))]
            z = int(r.integers(2))
            if m.startswith("ecdf1"):
                b, B = (b, []) if z else ([], B)
            elif m in ("ecdf", "poisson") and r.random() < 0.3:
                b, B = (b, B[:int(r.integers(0, n + 1))]) if z else ([], B)
            content = cli.bounds(b, B).encode()
            fuzzed = prog == "fuzz"
            lost = prog == "lost"
            if prog in ("valid", "fuzz") and r.random() < 0.4:
                where = PLACES[int(r.integers(len(PLACES)))]
            if fuzzed:
                content = mutate(r, content) if args % 8 else bytes(r.integers(0, 256, int(r.integers(0, 400))).astype(np.uint8))
            tmp = cli.write(content)
            sims = str(int(r.choice([1, 3, 50, 1000] if not lost else [1, 999, 1000, 1001, 4000, 9999, 10000, 20000])))
            file = content
            prog, args = (M, [m, tmp, sims]) if m in ("ecdf", "poisson") else (C, [m, tmp])
            which = ["prod", "asan"] if fuzzed or (prog == C and n < 200) else ["prod"]
            if lost or where:
                which = ["prod"]
        else:
            fuzzed = False
            which = ["prod", "asan"] if out == "pipe" else ["prod"]
        for w in which:
            judge(w, prog, args, want, out, file, fuzzed, where)
        if tmp:
            os.unlink(tmp)

    hangs = []

    def judge(w, prog, args, want, out, file, fuzzed, where):
        exe = os.path.join(builds[w], "bin", prog)
        env = dict(common.SAN_ENV, ASAN_OPTIONS=common.SAN_ENV["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")) if w == "asan" else {}
        kw = {}
        fh = None
        if out == "full":
            fh = kw["stdout"] = open("/dev/full", "wb")
        elif out == "limit":            # the file may not grow: the first byte fails
            fh = kw["stdout"] = open(os.path.join(d, "grow%d" % os.getpid()), "wb")
            kw["preexec"] = lambda: [signal.signal(signal.SIGXFSZ, signal.SIG_IGN), resource.setrlimit(resource.RLIMIT_FSIZE, (0, 0))] and None
        elif out == "readonly":
            fh = kw["stdout"] = open(good2, "rb")
        elif out in ("closed", "allclosed"):
            kw["preexec"] = (lambda: os.close(1)) if out == "closed" else (lambda: [os.close(x) for x in (0, 1, 2)] and None)
            fh = kw["stdout"] = open(os.devnull, "wb")
        elif out == "epipe":
            rd, wr = os.pipe()
            os.close(rd)
            fh = kw["stdout"] = os.fdopen(wr, "wb", 0)
            kw["preexec"] = lambda: signal.signal(signal.SIGPIPE, signal.SIG_IGN)
        if where == "bare":
            kw["bare"] = True
        elif where == "gone":
            def gone():
                t = tempfile.mkdtemp(dir=d)
                os.chdir(t)
                os.rmdir(t)
            kw["preexec"] = gone
        elif where == "nostdin":
            kw["preexec"] = lambda: os.close(0)
        elif where == "noerr":
            kw["preexec"] = lambda: os.close(2)
        elif where == "stack":
            kw["preexec"] = lambda: resource.setrlimit(resource.RLIMIT_STACK, (192 * 1024, 192 * 1024))
        elif where == "files":
            kw["preexec"] = lambda: resource.setrlimit(resource.RLIMIT_NOFILE, (6, 6))
        elif where == "signals":
            kw["preexec"] = lambda: signal.pthread_sigmask(signal.SIG_BLOCK, set(range(1, 32)) - {signal.SIGKILL, signal.SIGSTOP}) and None
        if where:
            chk.count("runs_in_" + where)
        try:
            # once hanging runs are confirmed there is no point in waiting long for more of them
            r = cli.run([exe] + args, env=env, timeout=40 if len(hangs) < 3 else 10, retry=len(hangs) < 3, **kw)
        except ValueError:          # NUL or too long: cannot be an argument
            return
        except OSError:
            return
        finally:
            if fh:
                fh.close()
        usage = len(args) != (2 if prog == C else 3)
        chk.observe(None if usage else (w, prog, tuple(a[:300] if not a.startswith(d) or file is None else "" for a in args), file, out, where),
                    {"run_with": where, "build": w, "prog": prog, "args": [a[:60] for a in args], "file": None if file is None else file[:80].decode(errors="replace"), "stdout_to": out, "status": r.status, "stdout": r.out[-60:].decode(errors="replace")})
        chk.count("runs_%s_%s" % (w, want if isinstance(want, str) else "value"))
        if r.value is not None:
            chk.count("exit0")
        elif r.status > 0:
            chk.count("exit_nonzero")
        bad = None
        if r.hang:
            bad = "hang"
            hangs.append(1)
        elif r.status < 0:
            bad = "killed-by-signal"
        elif want == "fail":
            if r.status == 0:
                bad = "success-although-output-lost"
        elif isinstance(want, float) and r.value != want:
            bad = "wrong-value"
        elif want == "reject" and not r.rejected:
            bad = "error-not-reported"
        elif want == "value" and r.value is None:
            bad = "valid-request-not-answered"
        elif r.value is None and not r.rejected:
            bad = "neither-answer-nor-error"
        elif r.value is not None and not -1e-9 <= r.value <= 1 + 1e-9:
            bad = "not-a-probability"
        if where == "noerr" and bad in ("error-not-reported", "neither-answer-nor-error") and r.status > 0 and not r.out.strip():      # it may have been explained on stderr
            bad = None
        if bad:
            what = args[0][:30] if args else "-"
            chk.violation("%s:%s:%s%s" % (prog, bad, what, "" if out == "pipe" else ":" + out), dict(r.brief(), build=w, run_with=where, file=None if file is None else file[:300].decode("latin1"), stdout_to=out),
                          {"kind": "cli", "argv": [prog] + [a for a in args], "file_arg": 1, "file": None if file is None else file.decode("latin1"), "stdout_to": out, "expected": want})

    common.parallel(chk, items, lambda: (body, lambda: None))
    chk.assumptions = ["'a probability' is a decimal number in [-1e-9, 1+1e-9]", "with standard output unusable only the nonzero status is required; SIGPIPE is ignored in those runs"]
    return chk.finish(4000, 3000)
