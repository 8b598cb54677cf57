// Reference model: Pr[for all i: b_i <= X_(i) <= B_i] for the order statistics of n uniforms,
// computed with positive terms only, in 80-bit arithmetic, directly from the definition
//      N(t) <= #{b_j < t}  and  N(t) >= #{B_j <= t}   at every boundary point t.
// Shares no code with the repository; cross-checked against exact rational arithmetic (selftest.py).
//   request:  <mode> <n> <nb> <nB> v...     mode: E (n uniforms, i.e. given N(1)=n) | T (the same, to
//             full relative accuracy however small the result: no negligible terms are left out) | P (Poisson process of
//             intensity n, N(1) unrestricted above when nb==0, at most nb steps otherwise, at least nB)
//   answer:   R <long double %.21Lg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <vector>
#include <algorithm>
typedef long double F;
using std::vector;

// Poisson(lambda) pmf on 0..size-1; entries outside [first,last) are below top*cut and left out.
static void kernel(F lambda, long size, F cut, vector<F>& k, long& first, long& last)
{
    k.assign(size, 0.0L);
    long mode = std::min((long)floorl(lambda), size - 1);
    F top = expl(mode * logl(lambda) - lambda - lgammal((F)mode + 1));
    k[mode] = top;
    first = mode;
    last = mode + 1;
    F v = top;
    for (long i = mode + 1; i < size; ++i) { v *= lambda / i; if (v <= top * cut) break; k[i] = v; last = i + 1; }
    v = top;
    for (long i = mode; i > 0; --i) { v *= i / lambda; if (v <= top * cut) break; k[i - 1] = v; first = i - 1; }
}

static F noncross(char mode, long n, const vector<double>& b, const vector<double>& B)
{
    const F cut = mode == 'T' ? 0.0L : n <= 400 ? 1e-250L : 1e-40L;
    if (mode == 'T') mode = 'E';
    long top = (mode == 'E') ? n : (b.empty() ? (long)B.size() : (long)b.size());
    // mode P with no upper boundary: states above |B| are merged into the last one (absorbing), see below
    bool merge = (mode == 'P' && b.empty());
    vector<double> t(b);
    t.insert(t.end(), B.begin(), B.end());
    t.push_back(1.0);
    std::sort(t.begin(), t.end());
    t.erase(std::unique(t.begin(), t.end()), t.end());
    vector<F> q(top + 1, 0.0L), r(top + 1), k;
    q[0] = 1.0L;
    long lo = 0, hi = 0;          // support of q
    double prev = 0.0;
    for (size_t s = 0; s < t.size(); ++s) {
        F lambda = (F)n * ((F)t[s] - (F)prev);
        long nlo = std::upper_bound(B.begin(), B.end(), t[s]) - B.begin();
        long nhi = b.empty() ? top : std::lower_bound(b.begin(), b.end(), t[s]) - b.begin();
        if (nhi > top) nhi = top;
        if (mode == 'E' && t[s] == 1.0 && nlo < n) nlo = n;
        if (nlo > nhi) return 0.0L;
        if (nlo > top) return 0.0L;
        if (lambda > 0) {
            long first, last;
            kernel(lambda, nhi - lo + 1 > 0 ? nhi - lo + 1 : 1, cut, k, first, last);
            std::fill(r.begin(), r.end(), 0.0L);
            for (long j = std::max(nlo, lo); j <= nhi; ++j) {
                // sum over i (source), m = j - i in [first,last)
                long i0 = std::max(lo, j - (last - 1)), i1 = std::min(hi, j - first);
                F acc = 0;
                for (long i = i0; i <= i1; ++i) acc += q[i] * k[j - i];
                r[j] = acc;
            }
            if (merge && top <= nhi) {
                F acc = 0;               // r[top] = Pr[reach >= top]
                for (long i = lo; i <= hi; ++i) {
                    if (i == top) { acc += q[i]; continue; }
                    // Pr[Poisson(lambda) >= top-i] by direct summation of the upper tail
                    long m = top - i;
                    F term = expl(m * logl(lambda) - lambda - lgammal((F)m + 1)), tail = 0;
                    for (long x = m; ; ++x) { tail += term; term *= lambda / (x + 1); if (x > lambda && term < 1e-30L * tail) break; if (x > m + 100000) break; }
                    acc += q[i] * tail;
                }
                r[top] = acc;
            }
            std::swap(q, r);
        } else {
            for (long i = 0; i < nlo && i <= top; ++i) q[i] = 0;
            for (long i = nhi + 1; i <= top; ++i) q[i] = 0;
        }
        for (long i = 0; i < nlo && i <= top; ++i) q[i] = 0;
        lo = nlo; hi = nhi;
        prev = t[s];
    }
    if (mode == 'E') return q[n] / expl((n ? n * logl((F)n) : 0) - n - lgammal((F)n + 1));
    F acc = 0;
    for (long i = lo; i <= hi; ++i) acc += q[i];
    return acc;
}

int main()
{
    char* line = NULL;
    size_t cap = 0;
    while (getline(&line, &cap, stdin) > 0) {
        char* save = NULL;
        char* tok = strtok_r(line, " \n", &save);
        if (!tok) continue;
        char mode = tok[0];
        long n = atol(strtok_r(NULL, " \n", &save));
        long nb = atol(strtok_r(NULL, " \n", &save));
        long nB = atol(strtok_r(NULL, " \n", &save));
        vector<double> b(nb), B(nB);
        for (long i = 0; i < nb; ++i) b[i] = strtod(strtok_r(NULL, " \n", &save), NULL);
        for (long i = 0; i < nB; ++i) B[i] = strtod(strtok_r(NULL, " \n", &save), NULL);
        printf("R %.21Lg\n", noncross(mode, n, b, B));
        fflush(stdout);
    }
    free(line);
    return 0;
}
