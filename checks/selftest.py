#!/usr/bin/env python3-vt
"""Cross-check the oracle (harness/oracle.cc) against two independent exact references, in rational arithmetic:
Steck's determinant and a multinomial recursion; and against closed forms at large n. Run by setup_cmd."""
import math, os, sys
from fractions import Fraction as Q
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import common, gen
from closed import daniels, smirnov


def steck(b, B):
    """n! det[ (B_i - b_j)_+^{j-i+1} / (j-i+1)! ] (0 below the first subdiagonal); valid when b_i <= B_i."""
    n = len(b)
    b, B = [Q(float(x)) for x in b], [Q(float(x)) for x in B]
    if any(x > y for x, y in zip(b, B)):
        return Q(0)
    M = [[Q(0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            e = j - i + 1
            if e == 0:
                M[i][j] = Q(1)
            elif e > 0:
                M[i][j] = max(Q(0), B[i] - b[j]) ** e / math.factorial(e)
    det = Q(1)
    for c in range(n):                     # exact Gaussian elimination
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None:
            return Q(0)
        if p != c:
            M[c], M[p] = M[p], M[c]
            det = -det
        det *= M[c][c]
        for r in range(c + 1, n):
            if M[r][c] != 0:
                f = M[r][c] / M[c][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return det * math.factorial(n)


def recursion(b, B, n):
    """Multinomial recursion over the sorted boundary points, exact; lists may be shorter than n (one-sided, ragged)."""
    b, B = [Q(float(x)) for x in b], [Q(float(x)) for x in B]
    qd, prev = {0: Q(1)}, Q(0)
    for t in sorted(set(b + B + [Q(1)])):
        g = t - prev
        lo = sum(x <= t for x in B)
        hi = sum(x < t for x in b) if b else n
        new = {}
        for j in range(lo, min(hi, n) + 1):
            s = sum((v * g ** (j - i) / math.factorial(j - i) for i, v in qd.items() if i <= j), Q(0))
            if s:
                new[j] = s
        qd, prev = new, t
    return qd.get(n, Q(0)) * math.factorial(n)


def main():
    rng = np.random.default_rng(12345)
    o = common.Oracle()
    k = 0
    for n in list(range(1, 11)) * 6:
        for name, f in gen.FAMILIES.items():
            b, B = f(n, rng)
            assert (np.diff(b) >= 0).all() and (np.diff(B) >= 0).all() and b.min() >= 0 and B.max() <= 1, name
            p1, p2, p3 = steck(b, B), recursion(b, B, n), o("E", n, b, B)
            assert p1 == p2, (name, n, float(p1), float(p2))
            assert abs(float(p3) - float(p1)) <= 1e-15 * float(p1) + 1e-300, (name, n, float(p1), p3)
            for bb, BB in ((b, []), ([], B), (b, B[:n // 2])):
                e = recursion(bb, BB, n)
                assert abs(float(o("E", n, bb, BB)) - float(e)) <= 1e-15 * float(e) + 1e-300, (name, n)
            k += 4
    for n in (50, 400, 1500):
        i = np.arange(1, n + 1)
        for a in (0.2, 0.5, 0.9):
            assert abs(float(o("E", n, a * i / n, [])) - daniels(a)) < 1e-12
            k += 1
        for c in (0.3, 0.8, 1.4):
            d = c / math.sqrt(n)
            assert abs(float(o("E", n, np.clip(i / n - d, 0, 1), [])) - smirnov(n, d)) < 1e-11, (n, c)
            k += 1
    # deep one-sided tails at n where "E" would drop negligible terms: mode T against Bolshev's recursion in 500 digits
    from mpmath import mp, mpf, binomial
    mp.dps = 500
    for n, d in ((420, 6.0), (450, 3.0)):
        b = np.clip(np.arange(1, n + 1) / n + d / math.sqrt(n) * (rng.random() * 0.3), 0, 0.999)
        up, P = [1 - mpf(float(x)) for x in b[::-1]], [mpf(1)]
        for m in range(1, n + 1):
            P.append(1 - sum(binomial(m, i) * (1 - up[i]) ** (m - i) * P[i] for i in range(m)))
        got = o("T", n, b, [])
        assert 0 < P[n] < 1e-5 and abs(float(got) / float(P[n]) - 1) < 1e-14, (n, d, got, float(P[n]))
        k += 1
    # Poisson mode against brute conditioning:  sum over N of pois(N) * P[event | N], all exact in the conditional part
    for n in (1, 2, 4, 6):
        for _ in range(6):
            b, B = gen.tube(n, rng)
            for bb, BB in ((b, B), ([], B), (b, []), (b, B[:n // 2])):
                tot = 0.0
                for N in range(0, 60):
                    if N < len(BB) or (len(bb) and N > len(bb)):
                        continue
                    bx = list(bb[:N]) if len(bb) else []
                    if len(bx) or not len(bb):
                        c = recursion(bx, BB, N)
                    else:
                        c = Q(1)
                    tot += math.exp(-n + N * math.log(n) - math.lgamma(N + 1)) * float(c)
                got = float(o("P", n, bb, BB))
                assert abs(got - tot) < 1e-12, (n, bb, BB, got, tot)
                k += 1
    print("oracle self-test: %d comparisons with exact rational / closed-form references agree" % k)


if __name__ == "__main__":
    main()
