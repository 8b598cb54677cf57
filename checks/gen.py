"""Boundary generators. Every family returns valid boundaries: non-decreasing, inside [0,1]."""
import math
import numpy as np
from scipy.special import betaincinv


def mono(v):
    return np.clip(np.maximum.accumulate(np.asarray(v, float)), 0.0, 1.0)


def q(n):
    return np.arange(1, n + 1) / (n + 1.0)


def unif2(n, rng):
    u, v = np.sort(rng.random(n)), np.sort(rng.random(n))
    return np.minimum(u, v), np.maximum(u, v)


def ks(n, rng):
    i = np.arange(1, n + 1)
    d = rng.choice([0.4, 0.5, 0.8, 1.0, 1.36, 2.0]) / math.sqrt(n)
    return np.clip(i / n - d, 0, 1), np.clip((i - 1) / n + d, 0, 1)


def bj(n, rng):
    i = np.arange(1, n + 1)
    a = 10 ** rng.uniform(-5, -1)
    return mono(betaincinv(i, n - i + 1, a)), mono(betaincinv(i, n - i + 1, 1 - a))


def remote(n, rng):
    """Crossed at each of many places with a probability of 1e-15 to 1e-5 only: what is dropped as negligible adds up."""
    i = np.arange(1, n + 1)
    a = 10 ** rng.uniform(-14.5, -5)
    if rng.random() < 0.6:
        b = mono(betaincinv(i, n - i + 1, a))
    else:
        b = mono(i / n - math.sqrt(-math.log(a) / (2 * n)))
    if rng.random() < 0.3:
        m = int(rng.integers(2, 200))
        b = np.floor(b * m) / m
    return mono(b), mono(1 - b[::-1]) if rng.random() < 0.7 else mono(np.maximum(b, tube(n, rng)[1]))


def tube(n, rng, m=None, c=None):
    """A tube around the quantile line, optionally on a grid of m levels (ties within and across the two lists)."""
    qq = q(n)
    sd = np.sqrt(qq * (1 - qq) / n) if rng.random() < 0.5 else 0.5 / math.sqrt(n)
    lo, hi = c if c is not None else rng.uniform(0.8, 4, 2)
    noise = rng.choice([0, 0.3, 1.0])
    b = mono(qq - sd * (lo + noise * rng.random(n)))
    B = 1 - mono((1 - (qq + sd * (hi + noise * rng.random(n))))[::-1])[::-1]
    if m:
        b, B = np.floor(b * m) / m, np.ceil(B * m) / m
    return mono(b), mono(B)


def grid(n, rng):
    return tube(n, rng, m=int(rng.integers(1, 4 * n + 3)))


def coarse(n, rng):
    """Very few distinct locations: large gaps, long kernels, many simultaneous steps."""
    m = int(rng.integers(2, 14))
    r = math.sqrt(n)
    return tube(n, rng, m=m, c=rng.uniform(0.3, 0.7 * r + 1, 2))


def few(n, rng):
    """Only a few indices are constrained at all."""
    b, B = np.zeros(n), np.ones(n)
    sd = 0.5 / math.sqrt(n)
    for _ in range(int(rng.integers(1, 5))):
        k = int(rng.integers(n))
        x = (k + 1) / (n + 1) + sd * rng.uniform(-2.5, 1.0)
        b[k:] = np.maximum(b[k:], min(1, max(0, x)))
    for _ in range(int(rng.integers(1, 5))):
        k = int(rng.integers(n))
        x = (k + 1) / (n + 1) + sd * rng.uniform(-1.0, 2.5)
        B[:k + 1] = np.minimum(B[:k + 1], min(1, max(0, x)))
    return b, np.maximum(B, 0)


def cluster(n, rng):
    """All boundary points packed into tiny intervals around one or two locations."""
    w = 10.0 ** rng.uniform(-15, -2)
    k = int(rng.integers(0, n + 1))
    x = (k + 0.5) / (n + 1)
    b, B = np.zeros(n), np.ones(n)
    side = rng.integers(3)
    if side != 0 and k > 0:     # first k points must come before ~x (+ slack)
        B[:k] = np.sort(np.clip(x + 0.3 / math.sqrt(n) * rng.random() + w * rng.random(k), 0, 1))
    if side != 1 and k < n:
        b[k:] = np.sort(np.clip(x - 0.3 / math.sqrt(n) * rng.random() + w * rng.random(n - k), 0, 1))
    return mono(b), mono(B)


def edge(n, rng):
    """Runs of exact zeros and ones and their floating-point neighbours."""
    b, B = tube(n, rng)
    k = int(rng.integers(0, n + 1))
    b[:k] = rng.choice([0.0, 5e-324, 1e-300, 1e-17])
    b = mono(b)
    j = int(rng.integers(0, n + 1))
    B[n - j:] = rng.choice([1.0, np.nextafter(1.0, 0), 1 - 1e-15])
    return b, mono(np.maximum(B, b))


def tiny(n, rng):
    """Values from the denormals up to 1e-5, sometimes of the upper list as well (the probability is then tiny)."""
    b, B = tube(n, rng)
    k = int(rng.integers(1, n + 1))
    b[:k] = np.sort(10.0 ** rng.uniform(-323.5, -5, k))
    if rng.random() < 0.2:
        j = int(rng.integers(1, min(k, 3) + 1))
        B[:j] = np.sort(10.0 ** rng.uniform(-320, -1, j))
    b = mono(b)
    return b, mono(np.maximum(B, b))


def around_sample(n, rng):
    """A narrow tube around one random sample: small but known probabilities."""
    x = np.sort(rng.random(n))
    w = rng.choice([0.02, 0.1, 0.3]) * rng.random()
    return mono(x - w * rng.random(n)), np.clip(1 - mono((1 - x - w * rng.random(n))[::-1])[::-1], 0, 1)


def chained(n, rng):
    """B_i == b_{i+1}: the cells touch, every location is both a b and a B."""
    e = np.concatenate([[0.0], np.sort(rng.random(n - 1)), [1.0]]) if rng.random() < 0.5 else np.arange(n + 1) / n
    s = int(rng.integers(1, 4))
    b = np.concatenate([np.zeros(s - 1), e[:n - s + 1]]) if s > 1 else e[:n]
    B = np.concatenate([e[s:], np.ones(s - 1)])
    return mono(b[:n]), mono(B[:n])


def infeasible(n, rng):
    b, B = tube(n, rng)
    k = int(rng.integers(n))
    x = rng.random()
    b[k:] = np.maximum(b[k:], x)
    B[:k + 1] = np.minimum(B[:k + 1], x * rng.random())
    return mono(b), mono(B)


def touching(n, rng):
    """The lower list exceeds the upper one by next to nothing, at one or many neighbouring indices: probability exactly 0."""
    b, B = tube(n, rng)
    i = int(rng.integers(n))
    j = n if rng.random() < 0.2 else min(n, i + 1 + int(rng.integers(1, 5) if rng.random() < 0.5 else rng.integers(n)))
    gap = float(rng.choice([0, 1e-17, 1e-16, 1e-15, 1e-13, 1e-10, 1e-9, 1e-8, 1e-7, 1e-5]))
    x = np.maximum(b[i:j], 1e-3) if rng.random() < 0.7 else np.full(j - i, max(b[i], 0.2))
    b[i:j] = x
    b = np.maximum.accumulate(np.clip(b, 0, 1))
    B = np.maximum(B, b)
    B[i:j] = np.where(gap == 0, b[i:j], np.minimum(np.nextafter(b[i:j], 0), b[i:j] - gap))
    B[:j] = np.minimum(B[:j], B[j - 1])
    return mono(b), mono(B)


def pinched(n, rng):
    """b_i == B_i for some i: probability exactly 0."""
    b, B = tube(n, rng)
    k = int(rng.integers(n))
    x = min(1, max(0, q(n)[k]))
    b[k:] = np.maximum(b[k:], x)
    B[:k + 1] = np.minimum(B[:k + 1], x)
    return mono(b), mono(B)


def vacuous(n, rng):
    return np.zeros(n), np.ones(n)


def ends(n, rng):
    """Both lists crowd towards 0 and 1 at some scale between 1e-16 and 1: what matters is the few points that fall there."""
    s, t = 10.0 ** rng.uniform(-16, -0.5, 2)
    if rng.random() < 0.5:
        s, t = rng.uniform(0.05, 3, 2) / n
    b, B = np.zeros(n), np.ones(n)
    k = int(rng.integers(1, n + 1)) if rng.random() < 0.6 else n
    u = np.sort(rng.random(k)) if rng.random() < 0.5 else np.ones(k)
    z = rng.integers(4)
    if z != 0:      # everything at least s from 0 / the last ones nearly at 1
        b[n - k:] = s * u
    if z != 1:
        B[:k] = 1 - t * u[::-1]
    if z == 3:
        b[int(rng.integers(n)):] = np.maximum(b[-1], min(1, rng.uniform(0, 2) / n))
    return mono(b), mono(np.maximum(B, b))


def multiscale(n, rng):
    """Gaps between neighbouring values spread over many orders of magnitude."""
    def steps():
        g = 10.0 ** rng.uniform(-rng.choice([3, 9, 17]), 0, n)
        g *= rng.uniform(0.2, 1) / g.sum()
        return np.cumsum(g)
    u, v = steps(), steps()
    r = math.sqrt(1.0 / n)
    b, B = u - rng.uniform(0.2, 2) * r, v + rng.uniform(0.2, 2) * r
    return mono(np.minimum(b, q(n) - 0.2 * r)), mono(np.maximum(B, q(n) + 0.2 * r))


def halves(n, rng):
    """A tight lower list over one half of the indices, a tight upper one over the other half."""
    b, B = tube(n, rng, c=rng.uniform(0.5, 3, 2))
    k = int(rng.integers(n + 1))
    if rng.random() < 0.5:
        b[:k], B[k:] = 0, 1
    else:
        b, B = np.concatenate([b[:k], np.full(n - k, b[k - 1] if k else 0.0)]), np.concatenate([np.full(k, B[k] if k < n else 1.0), B[k:]])
    return mono(b), mono(B)


FAMILIES = {f.__name__: f for f in (unif2, ks, bj, tube, grid, coarse, few, cluster, edge, tiny, around_sample, chained, infeasible, touching, pinched, vacuous, ends, multiscale, halves, remote)}
LIVELY = ["ks", "bj", "tube", "grid", "coarse", "few", "cluster", "edge", "tiny", "ends", "multiscale", "halves"]       # probabilities away from 0


def single(n, k, rng):
    """One-sided pair in which only index k is constrained, at its own median-ish quantile."""
    p = rng.uniform(0.2, 0.8)
    x = float(betaincinv(k + 1, n - k, p))
    b, B = np.zeros(n), np.ones(n)
    b[k:] = x
    b1 = b.copy()
    B[:k + 1] = x
    return b1, B
