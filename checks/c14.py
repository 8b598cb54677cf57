"""C14: a call's result does not depend on what was computed before, nor on other Python threads; the caller's lists stay as they are."""
import json, os
import numpy as np
import common, gen, cli, pylib
from c06 import offend, KINDS

RULE = ("A case is one library call made in a process with a history: the calls of a pool (all functions and modes, sizes on both sides of every internal threshold, near-twins that differ in one element, order or side, "
        "and rejected inputs of every kind) are made in sequences that realise every ordered pair of pool calls as neighbours, repeated back to back, on lists that look alike one after the other, and from several Python threads; every answer is compared with the answer of the same call "
        "in a fresh process, which is itself compared with the reference. Distinct by (previous call, call); non-trivial when the two differ.")
LIB = ("b.new", "B.new", "b.mns", "B.mns", "2.ks", "2.fft")


def args_for(fn, b, B):
    return (b, []) if fn[0] == "b" else ([], B) if fn[0] == "B" else (b, B)


def make_pool(chk, salt, size):
    r = chk.rng(11, salt)
    pool = []

    def add(fn, b, B, label):
        pool.append((fn, np.array(b, float), np.array(B, float), label))
    names = ["tube", "coarse", "grid", "few", "ks", "cluster", "edge"]
    # twins: one boundary pair through every entry point, then variations of it that a careless memo would confuse
    for n in (1, 2, 7, 40, 130, 300):
        b, B = gen.FAMILIES[names[int(r.integers(len(names)))]](n, r)
        for fn in LIB:
            add(fn, *args_for(fn, b, B), "base%d" % n)
        fn = LIB[int(r.integers(6))]
        k = int(r.integers(n))
        b2, B2 = b.copy(), B.copy()
        b2[k:] = np.maximum(b2[k:], min(1, b2[k] + 0.2 / np.sqrt(n)))
        B2[:k + 1] = np.minimum(B2[:k + 1], max(0, B2[k] - 0.2 / np.sqrt(n)))
        add(fn, *args_for(fn, b2, B2), "changed%d" % n)
        add("2.ks", b, B2, "changedB%d" % n)
        add("2.fft", b2, B, "changedb%d" % n)
        fn = LIB[int(r.integers(6))]
        add(fn, *args_for(fn, 1 - B[::-1], 1 - b[::-1]), "reflected%d" % n)
        if n > 1:
            fn = LIB[int(r.integers(6))]
            add(fn, *args_for(fn, b[:-1], B[:-1]), "shorter%d" % n)
    for fn in LIB:
        add(fn, [], [], "empty")
    for n in (127, 128, 129, 1023, 1024, 1025, 1030, 1100, 2047, 2048, 2049, 2100, 512):
        for fn in ("b.new", "B.new", "2.fft"):
            if r.random() < (0.5 if n > 500 else 1):
                b, B = gen.FAMILIES["coarse"](n, r)
                add(fn, *args_for(fn, b, B), "size%d" % n)
    dear = len(pool)
    for n in (1001, 1400, 1700, 2300):              # few, but dear
        for fn in ("b.mns", "B.mns", "2.ks")[:3 if n < 1500 else 2]:
            if size > 200 or r.random() < 0.5:
                b, B = gen.FAMILIES["few"](n, r)
                add(fn, *args_for(fn, b, B), "size%d" % n)
    for n in (3300, 5000, 9000):
        fn = ("b.new", "B.new", "2.fft")[int(r.integers(3))]
        b, B = gen.FAMILIES["few"](n, r)
        add(fn, *args_for(fn, b, B), "size%d" % n)
    dear = range(dear, len(pool))
    for i, kind in enumerate(KINDS + ("length", "length2")):
        for n in (1, 5, 130, 1100):
            fn = LIB[int(r.integers(6))] if not kind.startswith("length") else LIB[4 + int(r.integers(2))]
            b, B = gen.FAMILIES["tube"](n, r)
            if kind.startswith("length"):
                add(fn, b[:-1] if kind == "length" else b, np.append(B, 1.0) if kind == "length2" else B, "bad:" + kind)
                continue
            for _ in range(8):
                pos = int(r.integers(n))
                x, y = offend(b, kind, pos, r), offend(B, kind, pos, r)
                if x is not None and y is not None:
                    add(fn, *args_for(fn, x, y), "bad:" + kind)
                    break
    if size < len(pool):
        keep = set(int(i) for i in r.permutation(len(pool))[:size]) | set(dear)
        pool = [p for i, p in enumerate(pool) if i in keep]
    return pool


LOOK = ("moved", "second", "third", "xor", "one", "digits", "across", "exchange")


def lookalikes(kind, n, r):
    """Two valid pairs of lists that a memo with a careless key would confuse: the same length, ends and sum (moved), also the same first and second moments (second, third),
    the same exclusive or of the elements (xor), all elements but an inner one the same (one), all the same to 6 digits (digits), the same total of both lists (across), the same numbers in all (exchange)."""
    valid = lambda b, B: (np.diff(b) >= 0).all() and (np.diff(B) >= 0).all() and b[0] >= 0 and B[-1] <= 1 and b[-1] <= 1 and B[0] >= 0 and (b <= B).all()
    q = 2.0 ** -14 if kind != "digits" else 1e-5
    for _ in range(200):
        mid, half = (np.arange(n) + 0.5) / n, (0.3 + 0.7 * r.random()) / np.sqrt(n)
        b = np.sort(np.clip(np.floor((mid - half * (0.5 + 0.5 * r.random(n))) / q) * q, 0, 1))
        B = np.sort(np.clip(np.ceil((mid + half * (0.5 + 0.5 * r.random(n))) / q) * q, 0, 1))
        if kind == "digits":
            b, B = np.round(b, 5), np.round(B, 5)
        b2, B2 = b.copy(), B.copy()
        x, y = [(b2, B2), (B2, b2)][int(r.integers(2))]
        d = q * 2 ** int(r.integers(2, 8)) * (1 if r.random() < 0.5 else -1)
        st = int(r.integers(1, max(2, n // 3)))
        i = int(r.integers(0, n))
        w = {"moved": (1, -1), "second": (1, -2, 1), "third": (1, -3, 3, -1), "one": (1,)}.get(kind)
        if w:
            if i + st * (len(w) - 1) >= n:
                continue
            x[i:i + st * (len(w) - 1) + 1:st] += d * np.array(w)
        elif kind == "xor":
            if i + 1 >= n:
                continue
            (b if x is b2 else B)[i + 1] = (b if x is b2 else B)[i]
            x[i] = x[i + 1] = (b if x is b2 else B)[i] + d
        elif kind == "digits":
            inner = (x > 0.1) & (x < 1)
            x[inner] += float(r.choice([1e-8, 4e-8, -4e-8]))
        elif kind == "across":
            x[i] += d
            y[int(r.integers(0, n))] -= d
        elif kind == "exchange":
            j = int(r.integers(max(0, i - 5), min(n, i + 6)))
            if B[i] == b[j]:
                continue
            B2[i], b2[j] = b[j], B[i]
        if valid(b, B) and valid(b2, B2) and not ((b == b2).all() and (B == B2).all()):
            return b, B, b2, B2
    return None


def main():
    chk = common.Check("C14", RULE)
    d = common.build("prod")
    py = common.build_pyext()
    common.build_oracle()
    rng = chk.rng(1)
    TOL = 2e-10
    rounds = 6 if chk.thorough else 1
    for rd in range(rounds):
        pool = make_pool(chk, rd, 400 if chk.thorough else 120)

        def replay(c):
            return {"kind": "lib", "fn": c[0], "b": [common.hexf(x) for x in c[1]], "B": [common.hexf(x) for x in c[2]]}

        # --- fresh processes
        def fresh_worker():
            oracle = common.Oracle()

            def fresh(i):
                fn, b, B, label = pool[i]
                out = []
                for _ in range(2):
                    lib = common.Lib(d, timeout=100)
                    out.append(lib.call(fn, b, B))
                    lib.close()
                want = None
                if not label.startswith("bad"):
                    n = max(len(b), len(B))
                    want = float(oracle("E", n, b, B))
                for kind, r in out:
                    chk.observe(None)
                    chk.count("fresh_process_calls")
                    bad = None
                    if kind not in ("R", "E"):
                        bad = {"DIED": "crash", "HANG": "hang", "M": "input-modified"}.get(kind, kind)
                    elif (kind == "R") != (want is not None):
                        bad = "invalid-accepted" if want is None else "valid-rejected"
                    elif want is not None and not abs(r - want) <= TOL:
                        bad = "wrong-in-fresh-process"
                    if bad:
                        chk.violation("%s:%s" % (fn, bad), {"call": label, "lengths": [len(b), len(B)], "answer": str(r)[:800], "expected": want}, replay(pool[i]))
                        return None
                return want if want is None else out[0][1]
            return fresh, oracle.s.close
        want = common.parallel(chk, range(len(pool)), fresh_worker)
        if chk.violations:
            break

        def judge(c, w, kind, r, context, hist=()):
            bad = None
            if kind not in ("R", "E"):
                bad = {"DIED": "crash", "HANG": "hang", "M": "input-modified", "D": "repeated-call-differs"}.get(kind, kind)
                if kind == "D":
                    v = [float.fromhex(x.split()[0]) for x in r.split("R ")[1:] if "nan" not in x and "inf" not in x]
                    if w is not None and len(v) == r.count("R ") == 2 and "E " not in r and all(abs(x - w) <= TOL for x in v):
                        chk.count("repeats_differing_by_rounding")      # the promise is about the probability, not its last bit
                        return True
            elif (kind == "R") != (w is not None):
                bad = "accepted-after-history" if w is None else "rejected-after-history"
            elif w is not None and not abs(r - w) <= TOL:
                bad = "value-depends-on-history"
            if bad:
                chk.violation("%s:%s" % (c[0], bad), dict({"call": c[3], "lengths": [len(c[1]), len(c[2])], "in a fresh process": "rejected" if w is None else w, "after this history": str(r)[:800]}, **context),
                              dict(replay(c), history=[replay(pool[h]) for h in hist[-8:]]))
                return False
            return True

        # --- every ordered pair of pool calls, as neighbours in one process
        order = [int(x) for x in chk.rng(21, rd).permutation(len(pool))]
        cost = lambda c: (len(c[1]) + len(c[2])) ** 2
        order.sort(key=lambda i: -cost(pool[i]))

        def pair_worker():
            lib = common.Lib(d, timeout=100)
            hist = []

            def call(i, times=1):
                fn, b, B, label = pool[i]
                kind, r = lib.call(fn, b, B, times)
                ok = judge(pool[i], want[i], kind, r, {"last calls before": [pool[h][0] + " " + pool[h][3] for h in hist[-6:]]}, hist)
                prev = hist[-1] if hist else None
                chk.observe((rd, prev, i) if prev != i else None,
                            lambda: {"previous": [pool[h][0] + " " + pool[h][3] for h in hist[-2:]], "call": fn + " " + label, "outcome": kind, "answer": str(r)[:60]})
                chk.count("calls_with_history", times)
                if prev is not None and not (pool[prev][3].startswith("bad")) != (not label.startswith("bad")):
                    chk.count("transitions_across_a_rejection")
                hist.append(i)
                del hist[:-8]
                return ok

            def run(k):
                i = order[k]
                if cost(pool[i]) < 1e5 and not call(i, 40):
                    return
                for j in order[:k]:                 # i j i j2 i ... : both orders of every pair, and i again after each
                    if cost(pool[i]) > 1e6 and cost(pool[j]) > 1e6 and (i + j) % (2 if chk.thorough else 3):
                        continue
                    if not call(i) or not call(j):
                        return
                call(i)
            return run, lib.close
        common.parallel(chk, range(len(order)), pair_worker)

        # --- long random histories of small calls: state that builds up
        small = [i for i in range(len(pool)) if cost(pool[i]) < 3e4]

        def long_worker():
            def run(s):
                r = chk.rng(31, rd, s)
                lib = common.Lib(d, timeout=100)
                for t in range(2500 * (4 if chk.thorough else 1)):
                    i = small[int(r.integers(len(small)))]
                    kind, x = lib.call(*pool[i][:3])
                    chk.observe(None)
                    chk.count("long_history_calls")
                    chk.maximum("longest_history", t + 1)
                    if not judge(pool[i], want[i], kind, x, {"position in a random history": t, "history": "rng(31,%d,%d)" % (rd, s)}):
                        break
                lib.close()
            return run, lambda: None
        common.parallel(chk, range(8), long_worker)

        # --- calls on lists that look alike, one after the other
        looks = [(kind, n, v) for n in (3, 4, 5, 6, 9, 16, 33, 64, 150, 200) for kind in LOOK for v in range((5 if n < 100 else 1) * (4 if chk.thorough else 1))]
        looks += [("roles", n, v) for n in (1, 2, 3, 8, 40, 140) for v in range(4)]

        def look_worker():
            oracle, lib = common.Oracle(), common.Lib(d, timeout=100)

            def run(it):
                kind, n, v = it
                r = chk.rng(41, rd, n, v, (LOOK + ("roles",)).index(kind))
                if kind == "roles":
                    x = np.sort(gen.FAMILIES[["coarse", "few", "grid"][v % 3]](n, r)[0] * 0.5 + 0.25)
                    z, o = np.zeros(n), np.ones(n)
                    seqs = [[(f, *args_for(f, x, x)) for f in LIB[:4]] + [(f, *a) for f in LIB[4:] for a in ((x, o), (z, x), (x, x))]]
                    seqs = [[seqs[0][int(i)] for i in np.concatenate([r.permutation(len(seqs[0])) for _ in range(3)])]]
                else:
                    l = lookalikes(kind, n, r)
                    if l is None:
                        chk.count("lookalikes_not_found")
                        return
                    b, B, b2, B2 = l
                    seqs = []
                    for f in LIB:
                        a, c = (f, *args_for(f, b, B)), (f, *args_for(f, b2, B2))
                        if list(a[1]) != list(c[1]) or list(a[2]) != list(c[2]):
                            m = max(1, n // 2)
                            seqs.append([a, c, a, (f, *args_for(f, b[:m], B[:m])), c, a])
                known = {}
                for seq in seqs:
                    prev = None
                    for t, (f, b_, B_) in enumerate(seq):
                        key = (np.asarray(b_, float).tobytes(), np.asarray(B_, float).tobytes())
                        if key not in known:
                            known[key] = float(oracle("E", n if len(b_) in (0, n) and len(B_) in (0, n) else max(len(b_), len(B_)), b_, B_))
                        k, x = lib.call(f, b_, B_)
                        c = (f, np.asarray(b_, float), np.asarray(B_, float), kind)
                        chk.observe((rd, it, f, t, prev) if prev is not None and abs(prev - known[key]) > 10 * TOL else None)
                        chk.count("calls_after_a_lookalike")
                        if not judge(c, known[key], k, x, {"position": t, "n": n, "lookalike": kind}):
                            return
                        prev = known[key]
            return run, lambda: (oracle.s.close(), lib.close())
        common.parallel(chk, looks, look_worker)

        # --- Python, one thread and several
        spec = []
        for (fn, b, B, label), w in zip(pool, want):
            if cost((fn, b, B)) > 5e5:
                continue
            name, flag = pylib.PyLib.FN[fn]
            h = lambda v: [common.hexf(x) if np.isfinite(x) else str(float(x)) for x in v]
            spec.append({"fn": name, "args": [h(b), h(B), flag == "True"] if fn[0] == "2" else [h(b if fn[0] == "b" else B)], "want": None if w is None else float(w).hex(), "tol": TOL})
        pf = cli.write(json.dumps(spec), "pool%d.json" % rd)

        def thread_worker():
            def run(T):
                secs = 20 if chk.thorough else 5
                q = cli.run(["/usr/bin/python3", "-W", "ignore", os.path.join(common.HARNESS, "pythreads.py"), pf, str(secs), str(T), str(chk.seed)],
                            env={"PYTHONPATH": py, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONNOUSERSITE": "1"}, timeout=secs + 60)
                if q.hang or q.status:
                    if q.status == 1 and b"pythreads.py" in q.err:
                        raise common.HarnessError("pythreads: %s" % q.brief())
                    chk.violation("python-threads:%s" % ("hang" if q.hang else "crash"), dict(q.brief(), threads=T))
                    return
                a = json.loads(q.out)
                chk.count("python_calls_%d_threads" % T, sum(a["calls"]))
                chk.maximum("python_concurrent_call_pairs", a["pairs"])
                for t, c in enumerate(a["calls"]):
                    chk.observe((rd, "threads", T, t), {"python threads": T, "calls of one of them": c, "distinct concurrent pairs": a["pairs"]})
                if a["bad"]:
                    x = a["bad"][0]
                    chk.violation("python-threads:wrong", {"threads": T, "bad": a["bad"], "call": {k: v for k, v in spec[x["call"]].items() if k != "args"}})
                if a["mutated"]:
                    chk.violation("python-threads:input-modified", {"threads": T, "calls": a["mutated"][:5]})
            return run, lambda: None
        common.parallel(chk, [8, 4, 3, 2, 1], thread_worker)
        if common.enough():
            break
    chk.assumptions = ["'the same' means within 2e-10: FFT plans may legitimately differ in the last bits", "callers in several C++ threads are C22's subject; Python callers are covered here"]
    return chk.finish(8000, 4000)
