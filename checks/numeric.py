"""Value monitor shared by the numeric properties: run one boundary pair through the real library and judge the answer."""
import numpy as np
import common, gen

FN_TWO = ("2.ks", "2.fft")


def tol(n):
    return 1e-10 if n <= 5000 else 1e-9


class Judge:
    """One worker: a library process and an oracle process."""

    def __init__(self, chk, d, **kw):
        self.chk, self.lib, self.oracle = chk, common.Lib(d, **kw), common.Oracle()

    def close(self):
        self.lib.close()
        self.oracle.s.close()

    def replay(self, fn, b, B, expected):
        return {"kind": "lib", "fn": fn, "b": [common.hexf(x) for x in b], "B": [common.hexf(x) for x in B], "expected": str(expected)}

    def value(self, fn, b, B, label, expected="a probability", timeout=None):
        """The library's answer as a float, or None after reporting that there was none."""
        kind, r = self.lib.call(fn, b, B, timeout=timeout)
        n = max(len(b), len(B))
        if kind != "R":
            what = {"DIED": "crash", "HANG": "hang", "E": "rejects-valid-input", "X": "foreign-exception", "D": "nondeterministic", "M": "input-modified"}[kind]
            self.chk.violation("%s:%s" % (fn, what), {"case": label, "n": n, "b": list(map(float, b[:12])), "B": list(map(float, B[:12])), "answer": r[:1500]},
                               self.replay(fn, b, B, expected))
            return None
        if not np.isfinite(r):
            self.chk.violation("%s:not-a-number" % fn, {"case": label, "n": n, "b": list(map(float, b[:12])), "B": list(map(float, B[:12])), "answer": str(r)},
                               self.replay(fn, b, B, expected))
            return None
        return r

    def check(self, fn, b, B, label, expected=None, t=None, rel=None):
        n = max(len(b), len(B))
        if expected is None:
            expected = self.oracle("E", n, b, B)
        r = self.value(fn, b, B, label, expected)
        p = float(expected)
        nontrivial = 1e-250 < p < 1 - 1e-12
        self.chk.observe((fn, np.asarray(b, float).tobytes(), np.asarray(B, float).tobytes()) if nontrivial else None,
                         lambda: {"fn": fn, "case": label, "n": n, "b": list(map(float, b[:6])), "B": list(map(float, B[:6])), "expected": p, "got": r})
        self.chk.count("calls_" + fn)
        if r is None:
            return None
        err = abs(np.longdouble(r) - expected)
        if rel is not None:
            e = float(err / expected)
            self.chk.maximum("max_rel_err_" + fn, e)
            bad = e > rel
        else:
            self.chk.maximum("max_abs_err_" + fn, float(err))
            bad = err > (t if t is not None else tol(n))
        if bad:
            self.chk.violation("%s:wrong-value" % fn, {"case": label, "n": n, "b": list(map(float, b[:12])), "B": list(map(float, B[:12])), "expected": str(expected), "got": r},
                               self.replay(fn, b, B, expected))
        return r


def run(chk, d, items, body, **kw):
    def make():
        j = Judge(chk, d, **kw)
        return (lambda it: body(j, it)), j.close
    return common.parallel(chk, items, make)
