"""Closed forms that need no recursion at all, usable at any n."""
import math
import numpy as np
from math import lgamma


def daniels(a):
    """Pr[X_(i) >= a*i/n for all i] = 1 - a."""
    return 1.0 - a


def smirnov(n, d):
    """Pr[X_(i) >= i/n - d for all i] (Smirnov / Birnbaum-Tingey), in long double log space."""
    L = np.longdouble
    j = np.arange(0, int(math.floor(n * (1 - d))) + 1)
    x = 1 - L(d) - L(j) / n
    j, x = j[x > 0], x[x > 0]
    lg = log_binom(n)[j]
    y = L(d) + L(1) * j / n
    t = np.exp(lg + (n - j) * np.log(x) + (j - 1) * np.log(y))
    return float(1 - L(d) * t.sum())


_lf = None


def log_binom(n):
    global _lf
    if _lf is None or len(_lf) <= n:
        _lf = np.concatenate([[np.longdouble(0)], np.cumsum(np.log(np.arange(1, max(n, 40000) + 1, dtype=np.longdouble)))])
    j = np.arange(n + 1)
    return _lf[n] - _lf[j] - _lf[n - j]


def kolmogorov(n, d):
    """Pr[D_n < d] two-sided, Marsaglia-Tsang-Wang matrix power, in long double with scaling."""
    L = np.longdouble
    k = int(n * d) + 1
    m = 2 * k - 1
    h = L(k) - L(n) * L(d)
    H = np.zeros((m, m), L)
    for i in range(m):
        for j in range(m):
            if i - j + 1 >= 0:
                H[i, j] = 1
    for i in range(m):
        H[i, 0] -= h ** (i + 1)
        H[m - 1, i] -= h ** (m - i)
    H[m - 1, 0] += (2 * h - 1) ** m if 2 * h - 1 > 0 else 0
    for i in range(m):
        for j in range(m):
            if i - j + 1 > 0:
                f = L(1)
                for g in range(2, i - j + 2):
                    f *= g
                H[i, j] /= f

    def power(A, e):
        R, eR, B, eB = np.eye(m, dtype=L), 0, A.copy(), 0
        while e:
            if e & 1:
                R = R.dot(B)
                eR += eB
            e >>= 1
            if e:
                B = B.dot(B)
                eB *= 2
                if B[k - 1, k - 1] > L(10) ** 500:
                    B *= L(10) ** -500
                    eB += 500
            if R[k - 1, k - 1] > L(10) ** 500:
                R *= L(10) ** -500
                eR += 500
        return R, eR
    R, e = power(H, n)
    s = np.log(R[k - 1, k - 1]) + e * np.log(L(10)) + (log_binom(n)[0] * 0 + _lf[n]) - n * np.log(L(n))
    return float(np.exp(s))
