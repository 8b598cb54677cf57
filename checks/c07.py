"""C07: a boundaries file means exactly the numbers it contains."""
import math, os, re, subprocess, time
from fractions import Fraction as Q
import numpy as np
from scipy.stats import binom
import common, gen, cli

RULE = ("A case is one run of a program on one boundaries file. Accepted files are written in many notations, spacings, lengths and delivery patterns (pipes in pieces, short reads, "
        "EINTR) and their printed probability is compared with the exact probability of the numbers as Python reads them; the boundaries are disjoint cells, so that the probability is "
        "n!*prod(B_i-b_i) and moves with the last bit of every number. Rejected files have a missing line, an empty or non-numeric field or a read error. Distinct by (program, mode, file bytes, delivery); all are non-trivial.")


def tokens(r, v):
    """One decimal token whose value is close to v, in a random notation, at full precision."""
    z = int(r.integers(9))
    if z == 0:
        return repr(v)
    if z == 1:
        return "%.17g" % v
    if z == 2:
        return "%.20f" % v
    if z == 3:
        return "%.16e" % v
    if z == 4:
        return ("%.25f" % v).lstrip("0") if 0 < v < 1 else "%.3f" % v
    if z == 5:
        return "+" + repr(v)
    if z == 6:
        return "000" + ("%.18f" % v)
    if z == 7:
        return "%dE-20" % int(Q(v) * 10 ** 20)
    return "%.17f" % v + "".join(r.choice(list("0123456789"), int(r.integers(1, 40))))


def cellsfile(r, n):
    """Disjoint increasing cells as token lists (tb, tB) with exact probability n! prod width of what the tokens denote."""
    while True:
        s = int(r.integers(4))
        if s == 0:        # last-bit cells
            w = np.full(n, 2.0 ** -50) * r.integers(1, 9, n)
        else:
            w = 10.0 ** -r.uniform(1, [0, 3, 8, 14][s], n) / n
        w = np.minimum(0.6 / n, w * 10 ** (max(0.0, -150 - np.log10(w).sum()) / n))
        c = (np.arange(n) + 0.5 + 0.2 * (r.random(n) - 0.5)) / n
        tb = [tokens(r, float(x)) for x in c - w / 2]
        tB = [tokens(r, float(x)) for x in c + w / 2]
        b, B = [float(t) for t in tb], [float(t) for t in tB]
        if all(x < y for x, y in zip(b, B)) and all(y <= x for x, y in zip(b[1:], B)) and b[0] >= 0 and B[-1] <= 1:
            p = Q(math.factorial(n))
            for x, y in zip(b, B):
                p *= Q(y) - Q(x)
            if p > Q(1, 10 ** 180):
                return tb, tB, p


def layout(r, toks, plain=False):
    if not toks:
        return ""
    z = int(r.integers(7)) if not plain else 0
    if z == 0:
        s = ", ".join(toks)
    elif z == 1:
        s = ",".join(toks)
    elif z == 2:
        s = " " * int(r.integers(1, 5)) + (" ,\t ").join(toks) + " " * int(r.integers(0, 3))
    elif z == 3:
        s = "\t" + ",\t\t".join(toks)
    elif z == 4:
        s = ",".join(t + " " * int(r.integers(0, 3)) for t in toks)
    elif z == 5:
        s = "".join(" " * int(r.integers(0, 2000 // len(toks) + 2)) + t + "," for t in toks[:-1]) + toks[-1]
    else:
        s = ", ".join(toks)
    if not s[-1].isspace() and r.random() < 0.35 and not plain:
        s += ","
    return s


BAD = ["", " ", "\t", "abc", "x0.5", "-", "+", ".", "e5", "--0.5", "+-0.5", "'0.5'", "\"0.5\"", "(0.5)", "$0.5", "1e400", "1e99999", "O.5", ";", "/", "%", "=0.5", "_0.5", "#", "null", "None", "e", "-e1", "\x01", "\xa0"]


def main():
    chk = common.Check("C07", RULE)
    d = common.build("prod")
    common.build_oracle()
    fake, fault = common.build_so("faketime"), common.build_so("readfault")
    prog, mc = os.path.join(d, "bin", "crossprob"), os.path.join(d, "bin", "crossprob_mc")
    k = 12 if chk.thorough else 1
    items = [("giant", i) for i in range(12)] + [("huge", i) for i in range(8)] + [("buffer", i) for i in range(14 * (3 if chk.thorough else 1))]
    items = [("2GiB", i) for i in range(4 if chk.thorough else 1)] + items
    items += [("pipe", i) for i in range(24 * k)] + [("chunk", i) for i in range(120 * k)] + [("eio", i) for i in range(200 * k)]
    items += [("cells", i) for i in range(1500 * k)] + [("ulp", i) for i in range(500 * k)] + [("sides", i) for i in range(250 * k)]
    items += [("bad", i) for i in range(len(BAD) * 24 * k)] + [("missing", i) for i in range(48)] + [("mc", i) for i in range(150 * k)]
    items += [("edge", i) for i in range(120 * k)]
    # a user's locale with a decimal comma and digit grouping changes nothing
    loc = os.path.join(common.scratch(), "locales")
    os.makedirs(loc, exist_ok=True)
    for name in ("de_DE", "fr_FR"):
        try:
            subprocess.run(["localedef", "-i", name, "-f", "UTF-8", os.path.join(loc, name + ".UTF-8")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=100)
        except (OSError, subprocess.TimeoutExpired):
            pass
    if os.path.isdir(os.path.join(loc, "de_DE.UTF-8")):
        items += [("locale", i) for i in range(90 * k)]

    def judge(kind, i, argv0, mode, content, expected, rel, r, note=""):
        """r: cli.Run. expected: exact value, or None when the file must be rejected."""
        content = content if isinstance(content, bytes) else content.encode()
        chk.observe((os.path.basename(argv0), mode, content, note), {"kind": kind, "mode": mode, "file": content[:160].decode(errors="replace"), "delivery": note,
                                                                     "expected": "rejected" if expected is None else float(expected), "stdout": r.out[-60:].decode(errors="replace")})
        chk.count("kind_" + kind)
        rep = {"kind": "cli", "argv": [os.path.basename(argv0), mode], "file": content.decode("latin1"), "delivery": note, "expected": "rejected" if expected is None else str(float(expected))}
        det = dict(r.brief(), file=content[:300].decode(errors="replace"), expected="rejected" if expected is None else float(expected), delivery=note)
        if r.hang:
            chk.violation("%s:%s:hang" % (kind, mode), det, rep)
        elif expected is None:
            if not r.rejected:
                chk.violation("%s:%s:accepted" % (kind, mode), det, rep)
        elif r.value is None:
            chk.violation("%s:%s:no-answer" % (kind, mode), det, rep)
        else:
            e = abs(r.value - float(expected))
            e = e / float(expected) if rel == "rel" else e
            chk.maximum("max_err_" + ("rel" if rel == "rel" else "abs"), e)
            if e > 5.1e-6:
                chk.violation("%s:%s:wrong-value" % (kind, mode), det, rep)

    oracle = [None]

    def body(_, it):
        kind, i = it
        r = chk.rng(3, sum(map(ord, kind)), i)
        nl = "\n" if r.random() < 0.6 else ""
        if kind == "cells":
            n = int(r.choice([1, 2, 3, 5, 8, 13, 20, 34]))
            tb, tB, p = cellsfile(r, n)
            c = layout(r, tb) + "\n" + layout(r, tB) + nl
            f = cli.write(c)
            judge(kind, i, prog, "ecdf2-ks2001", c, p, "rel", cli.run([prog, "ecdf2-ks2001", f]))
            os.unlink(f)
        elif kind == "locale":
            n = int(r.choice([1, 2, 3, 8]))
            tb, tB, p = cellsfile(r, n)
            env = {"LOCPATH": loc, ["LC_ALL", "LC_NUMERIC", "LANG"][int(r.integers(3))]: ["de_DE.UTF-8", "fr_FR.UTF-8"][int(r.integers(2))]}
            for v in ("LC_ALL", "LC_NUMERIC", "LANG", "LANGUAGE"):
                env.setdefault(v, "")
            c = layout(r, tb) + "\n" + layout(r, tB) + nl
            f = cli.write(c)
            judge(kind, i, prog, "ecdf2-ks2001", c, p, "rel", cli.run([prog, "ecdf2-ks2001", f], env=env), "locale")
            os.unlink(f)
            x = float(r.uniform(0.3, 0.7))
            c = "%.17f\n\n" % x
            f = cli.write(c)
            for m in cli.ALGOS:
                judge(kind, i, prog, m, c, 1 - x, "abs", cli.run([prog, m, f], env=env), "locale")
            env2 = {"LD_PRELOAD": fake, "FAKETIME": str(1600000000 + i)}
            for m in ("ecdf", "poisson"):
                q, w = cli.run([mc, m, f, "2000"], env=env2), cli.run([mc, m, f, "2000"], env=dict(env2, **env))
                chk.observe((m, c, "locale"), None)
                if q.value is None or q.value != w.value:
                    chk.violation("locale:%s:changes-result" % m, {"plain": q.brief(), "locale": w.brief()}, {"kind": "cli", "argv": ["crossprob_mc", m], "tail": ["2000"], "file": c, "env": env})
            os.unlink(f)
        elif kind == "ulp":        # one cell exactly one or two ulps wide: the answer is that ulp
            x = float(r.choice([r.random(), 0.1, 0.3, 1 / 3, 0.7, 0.123456789012345678, 2.0 ** -r.integers(1, 30), 10.0 ** -r.uniform(0, 12)]))
            y = x
            for _ in range(int(r.integers(1, 4))):
                y = float(np.nextafter(y, 1))
            tx, ty = (repr(x), repr(y)) if r.random() < 0.5 else ("%.20f" % x if x > 1e-2 else "%.18e" % x, "%.17g" % y)
            if r.random() < 0.3:       # a text half-way between two numbers, or next to half-way: only the last of its many digits decides
                mid = (Q(x) + Q(float(np.nextafter(x, 1)))) / 2
                k = int(r.integers(55, 200))
                t = (mid * 10 ** k).numerator // (mid * 10 ** k).denominator + int(r.integers(-1, 3)) if r.random() < 0.8 else None
                tx = "0." + str(t).rjust(k, "0") if t is not None else "0." + str((mid * 10 ** 1100).numerator).rjust(1100, "0").rstrip("0")
                x = float(tx)
                y = x
                for _ in range(int(r.integers(1, 4))):
                    y = float(np.nextafter(y, 1))
                ty = "%.17g" % y
                chk.count("half_way_texts")
            if float(tx) != x or float(ty) != y or x >= 1:
                return
            c = layout(r, [tx]) + "\n" + layout(r, [ty]) + nl
            f = cli.write(c)
            judge(kind, i, prog, "ecdf2-ks2001", c, Q(y) - Q(x), "rel", cli.run([prog, "ecdf2-ks2001", f]))
            os.unlink(f)
        elif kind == "sides":      # an empty line is the absent side, in every command that allows it
            if oracle[0] is None:
                oracle[0] = common.Oracle()
            n = int(r.choice([1, 2, 3, 7, 12, 40, 130]))
            b, B = gen.FAMILIES[gen.LIVELY[i % len(gen.LIVELY)]](n, r)
            tb, tB = [repr(float(x)) for x in b], [repr(float(x)) for x in B]
            for c, bb, BB in ((layout(r, tb) + "\n" + "\n", b, []), ("\n" + layout(r, tB) + nl, [], B),
                              (layout(r, tb) + "\n" + layout(r, ["1"] * n) + nl, b, []), (layout(r, ["0"] * n) + "\n" + layout(r, tB) + nl, [], B), ):
                p = oracle[0]("E", n, bb, BB)
                f = cli.write(c)
                for m in cli.ALGOS:
                    if m.startswith("ecdf1") and "\n\n" not in c and not c.startswith("\n"):
                        continue
                    judge(kind, i, prog, m, c, p, "abs", cli.run([prog, m, f]))
                os.unlink(f)
        elif kind == "edge":
            x = float(r.random())
            t = r.choice(["0", "0.0", "-0", "-0.0", "0e0", "0e5", ".0", "0.", "1e-5", "1E-5", "1e-05", "10e-6", ".00001", "1e-310", "1e-30", "5e-324", "1e-400"])
            u = r.choice(["1", "1.0", "1.", "1e0", "+1", "100e-2", "0.1e1", "1.000000000000000000000000", "0.99999999999999999999999", repr(x)])
            c = layout(r, [t]) + "\n" + layout(r, [u]) + nl
            f = cli.write(c)
            judge(kind, i, prog, "ecdf2-ks2001", c, Q(float(u)) - Q(float(t)), "rel", cli.run([prog, "ecdf2-ks2001", f]))
            os.unlink(f)
        elif kind == "huge":
            n, how = [(3000, "long"), (17000, "new"), (1500, "pad"), (4096, "new"), (2500, "cr"), (9000, "new"), (700, "long"), (1000, "pad")][i]
            a = float(r.choice([0.25, 0.5, 0.75]))
            v = a * np.arange(1, n + 1) / n
            if how == "long":
                tb = ["%.60f" % x for x in v]
            else:
                tb = [repr(float(x)) for x in v]
            sep = "," + " " * (300 if how == "pad" else 0)
            c = sep.join(tb) + "\n" + "\n"
            f = cli.write(c)
            chk.maximum("longest_line", len(c))
            judge(kind, i, prog, "ecdf1-new", c, 1 - a, "abs", cli.run([prog, "ecdf1-new", f], timeout=120))
            c = "\n" + sep.join("%.17f" % x for x in 1 - v[::-1])
            f = cli.write(c)
            judge(kind, i, prog, "ecdf1-new", c, 1 - a, "abs", cli.run([prog, "ecdf1-new", f], timeout=120))
            # two long lines of cells through the exact mode: Pr[X_(i) in cell of a regular grid, touching] = n!/n^n
            m = 90
            e = [Q(j, m) for j in range(m + 1)]
            tb = ["%.*f" % (30 + 40 * int(r.integers(0, 12)), float(x)) for x in e[:-1]]
            tB = ["%.*f" % (30 + 40 * int(r.integers(0, 12)), float(x)) for x in e[1:]]
            c = (",%s" % (" " * 500)).join(tb) + "\n" + (",%s" % ("\t" * 300)).join(tB) + "\n"
            f = cli.write(c)
            p = Q(math.factorial(m))
            for x, y in zip(tb, tB):
                p *= Q(float(y)) - Q(float(x))
            judge(kind, i, prog, "ecdf2-ks2001", c, p, "rel", cli.run([prog, "ecdf2-ks2001", f]))
        elif kind == "giant":      # lines of millions of bytes
            z = i % 6
            if z in (0, 1):        # hundreds of thousands of numbers, two distinct ones: a binomial tail, which moves with the count and the place of the step
                n = [300000, 120000][z]
                x = float(r.choice([0.1, 0.3, 0.5])) + float(r.random()) * 1e-3
                m = int(n * x + r.uniform(-1, 1) * math.sqrt(n * x))
                t = "%.17f" % x if z else repr(x)
                c = ",".join(["0"] * m + [t] * (n - m)) + "\n\n" if i < 6 else "\n" + ", ".join([t] * m + ["%.25f" % 1.0] * (n - m)) + "\n"
                p = Q(float(binom.cdf(m, n, float(t)))) if i < 6 else Q(float(binom.sf(m - 1, n, float(t))))
                mode, rel = "ecdf2-mn2017", "abs"
            elif z == 2:           # both lines long: everything pinned between a step down and a step up
                n = 60000
                x = 0.4 + float(r.random()) * 1e-3
                m = int(n * x)
                c = ",".join(["0.0000000000000000000000"] * m + [repr(x)] * (n - m)) + "\n" + ",".join(["%.30f" % 1.0] * n) + "\n"
                p, mode, rel = Q(float(binom.cdf(m, n, x))), "ecdf2-mn2017", "abs"
            else:                  # few numbers of millions of digits or blanks
                tb, tB, p = cellsfile(r, 3)
                w = int(r.choice([1100000, 2200000, 4300000])) if i not in (4, 9) else [17000000, 34000000][i == 4]
                tb[i % 3] = [lambda t: t if "e" in t.lower() else t + ("" if "." in t else ".") + "0" * w, lambda t: " " * w + t, lambda t: ("+" if t[0] == "+" else "") + "0" * w + t.lstrip("+")][z - 3](tb[i % 3])
                c = ",".join(tb) + "\n" + ",".join(tB) + "\n"
                if i >= 6:
                    c = ",".join(["0"] * 3) + "\n" + ",".join(tb) + "\n"
                    v = [float(t) for t in tb]
                    if oracle[0] is None:
                        oracle[0] = common.Oracle()
                    p = Q(float(oracle[0]("E", 3, [], v)))
                mode, rel = "ecdf2-ks2001", "rel"
            f = cli.write(c)
            chk.maximum("longest_line", len(c))
            judge(kind, i, prog, mode, c, p, rel, cli.run([prog, mode, f], timeout=120))
            os.unlink(f)
        elif kind == "2GiB":       # a line longer than an int can count
            free = int(re.search(r"MemAvailable:\s+(\d+)", open("/proc/meminfo").read()).group(1))
            if free < 14e6:
                chk.count("2GiB_left_out_for_lack_of_memory")
                return
            tb, tB, p = cellsfile(r, 3)
            toks = [tb, tB][i // 2 % 2]
            at = [1, 0][i % 2]
            toks[at] = "\0" + toks[at]
            head, _, tail = (",".join(tb) + "\n" + ",".join(tB) + nl).encode().partition(b"\0")
            block, left = b" " * (1 << 20), 2050 + int(r.integers(0, 40))
            pr = subprocess.Popen([prog, "ecdf2-ks2001", "/dev/stdin"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            try:
                pr.stdin.write(head)
                for _ in range(left):
                    pr.stdin.write(block)
                pr.stdin.write(tail)
            except BrokenPipeError:
                pass
            try:
                out, err = pr.communicate(timeout=400)
                run = cli.Run(pr.returncode, out, err, False, pr.args)
            except subprocess.TimeoutExpired:
                pr.kill()
                pr.communicate()
                run = cli.Run(-9, b"", b"", True, pr.args)
            if run.status == -9 and not run.hang or run.rejected and b"memory" in out + err:
                chk.count("2GiB_left_out_for_lack_of_memory")
                return
            chk.maximum("longest_line", left << 20)
            judge(kind, i, prog, "ecdf2-ks2001", head + b" [%d MiB of blanks] " % left + tail, p, "rel", run, "pipe")
        elif kind == "buffer":     # lines that end, or have a number astride, at a power of two
            size = 2 ** (8 + i % 14)
            for d in (-20, -9, -2, -1, 0, 1, 2, 7):
                for second in (0, 1):
                    tb, tB, p = cellsfile(r, 3)
                    toks = [tb, tB][second]
                    l = ",".join(toks)
                    pad = size + d - len(l)
                    if pad < 0:
                        continue
                    at = int(r.integers(0, 3))
                    toks[at] = " " * pad + toks[at]
                    if d > 1 and second == 0 and at == 0:     # also a file whose second line starts there
                        tB[0] = " " * int(r.integers(0, 40)) + tB[0]
                    c = ",".join(tb) + "\n" + ",".join(tB) + nl
                    f = cli.write(c)
                    judge(kind, i, prog, "ecdf2-ks2001", c, p, "rel", cli.run([prog, "ecdf2-ks2001", f], timeout=120), "line %d of %d bytes" % (second + 1, size + d))
                    os.unlink(f)
        elif kind == "pipe":
            n = int(r.choice([2, 10, 30]))
            tb, tB, p = cellsfile(r, n)
            c = (layout(r, tb) + "\n" + layout(r, tB) + nl).encode()
            step = int(r.choice([1, 3, 16, 100, max(1, len(c) // 3)]))
            pieces = [c[j:j + step] for j in range(0, len(c), step)]
            pr = subprocess.Popen([prog, "ecdf2-ks2001", "/dev/stdin"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            try:
                for piece in pieces:
                    pr.stdin.write(piece)
                    pr.stdin.flush()
                    time.sleep(0.0003 if step > 2 else 0.0001)
            except BrokenPipeError:
                pass
            try:
                out, err = pr.communicate(timeout=120)
                run = cli.Run(pr.returncode, out, err, False, pr.args)
            except subprocess.TimeoutExpired:
                pr.kill()
                pr.communicate()
                run = cli.Run(-9, b"", b"", True, pr.args)
            judge(kind, i, prog, "ecdf2-ks2001", c, p, "rel", run, "pipe in %d-byte pieces" % step)
        elif kind == "chunk":
            n = int(r.choice([1, 2, 10, 30]))
            tb, tB, p = cellsfile(r, n)
            c = layout(r, tb) + "\n" + layout(r, tB) + nl
            f = cli.write(c)
            ch, ei = int(r.choice([1, 2, 5, 63, 4096])), str(int(r.integers(2)))
            log = f + ".log"
            run = cli.run([prog, "ecdf2-ks2001", f], env={"LD_PRELOAD": fault, "RF_PATH": f, "RF_CHUNK": str(ch), "RF_EINTR": ei, "RF_LOG": log})
            if os.path.exists(log):
                chk.count("reads_shortened_or_interrupted", os.path.getsize(log))
                os.unlink(log)
            judge(kind, i, prog, "ecdf2-ks2001", c, p, "rel", run, "reads of at most %d bytes, EINTR %s" % (ch, ei))
            os.unlink(f)
        elif kind == "eio":
            n = int(r.choice([1, 2, 5, 30]))
            tb, tB, p = cellsfile(r, n)
            l1, l2 = layout(r, tb, True), layout(r, tB, True)
            if r.random() < 0.3:
                l2 = l2 + "," + " " * 9000 + "1"      # beyond one buffer; would be a length error anyway
            c = l1 + "\n" + l2 + "\n"
            # preferably just before/after a separator or line end, where the rest would look complete
            cand = [j for j, ch in enumerate(c) if ch in ",\n"]
            at = int(r.choice(cand)) + int(r.integers(0, 2)) if r.random() < 0.7 else int(r.integers(0, len(c)))
            at = min(at, len(l1) + 1 + len(l2))
            f = cli.write(c)
            log = f + ".log"
            m, a0 = [("ecdf2-ks2001", prog), ("ecdf2-mn2017", prog), ("ecdf", mc), ("poisson", mc)][int(r.integers(4))]
            run = cli.run([a0, m, f] + (["100"] if a0 == mc else []), env={"LD_PRELOAD": fault, "RF_PATH": f, "RF_FAIL": str(at), "RF_LOG": log})
            hit = os.path.exists(log) and "F" in open(log).read()
            if hit:
                chk.count("read_errors_injected")
                judge(kind, i, a0, m, c, None, "", run, "EIO after byte %d of %d" % (at, len(c)))
            for x in (f, log):
                if os.path.exists(x):
                    os.unlink(x)
        elif kind == "bad":
            tok = BAD[i % len(BAD)]
            n = int(r.choice([1, 2, 3, 9, 40]))
            v = np.sort(r.random(n))
            lists = [[repr(float(x)) for x in v * 0.5], [repr(float(x)) for x in 0.5 + v * 0.5]]
            m, a0 = ([(m, prog) for m in cli.ALGOS] + [("ecdf", mc), ("poisson", mc)])[(i // len(BAD)) % 6]
            side = int(r.integers(2))
            pos = int(r.integers(0, n))
            if m.startswith("ecdf1"):
                lists[1 - side] = []
            lists[side][pos] = tok
            lines = [",".join(x) if r.random() < 0.5 or tok == "" else ", ".join(x) for x in lists]
            if tok == "" and pos == n - 1:
                lines[side] += ","               # "0.1,," : an empty last field, not a trailing comma
                if n == 1:
                    lines[side] = ",,"
            if tok in (" ", "\t") and n == 1:
                return                           # a line of blanks only: unspecified
            if tok in (" ", "\t") and pos == n - 1:
                return                           # blanks after a trailing comma: unspecified
            c = (lines[0] + "\n" + lines[1] + nl).encode("latin1")
            f = cli.write(c)
            judge(kind, i, a0, m, c, None, "", cli.run([a0, m, f] + (["50"] if a0 == mc else [])), "bad field %r at %d of %d, line %d" % (tok, pos, n, side + 1))
            os.unlink(f)
        elif kind == "missing":
            c = ["", "0.1, 0.2", "0.1, 0.2\n", "\n", "0.5,\n", "0.5", "0\n", "1,1,1,1,1,1\n"][i % 8]
            m, a0 = ([(m, prog) for m in cli.ALGOS] + [("ecdf", mc), ("poisson", mc)])[i // 8]
            f = cli.write(c)
            judge(kind, i, a0, m, c, None, "", cli.run([a0, m, f] + (["50"] if a0 == mc else [])), "no second line")
            os.unlink(f)
        elif kind == "mc":
            # with the clock fixed, every way of writing the same numbers gives the same output
            n = int(r.choice([1, 2, 5, 20]))
            b, B = gen.FAMILIES[gen.LIVELY[i % len(gen.LIVELY)]](n, r)
            tb, tB = [repr(float(x)) for x in b], [repr(float(x)) for x in B]
            z = int(r.integers(4))
            tb, tB = ([] if z == 0 else tb), ([] if z == 1 else tB)
            m = "ecdf" if r.random() < 0.5 else "poisson"
            env = {"LD_PRELOAD": fake, "FAKETIME": str(1600000000 + int(r.integers(10 ** 8)))}
            outs = []
            for c in (", ".join(tb) + "\n" + ", ".join(tB) + "\n", layout(r, tb) + "\n" + layout(r, tB) + ("\n" if not tB else nl), layout(r, tb) + "\n" + layout(r, tB) + "\n"):
                f = cli.write(c)
                q = cli.run([mc, m, f, "3000"], env=env)
                outs.append(q.value)
                os.unlink(f)
                chk.observe(("mc", m, c), None)
            chk.count("kind_mc", 3)
            if None in outs or len(set(outs)) != 1:
                chk.violation("mc:%s:notation-changes-result" % m, {"outputs": outs, "file": c[:300], "last": q.brief()}, {"kind": "cli", "argv": ["crossprob_mc", m], "tail": ["3000"], "file": c, "env": env})

    def make():
        oracle[0] = None
        return (lambda it: body(None, it)), (lambda: oracle[0] and oracle[0].s.close())
    common.parallel(chk, items, make)
    chk.assumptions = ["Python's float() and exact rationals say what a token and a cell list mean", "characters after a number inside a field, blank-only lines and CRLF are left unspecified"]
    return chk.finish(2500, 2000)
