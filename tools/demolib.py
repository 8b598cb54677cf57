import subprocess, glob, sys, os, tempfile, math
sys.dont_write_bytecode = True
sys.path.insert(0, glob.glob('/repo/_build/py/lib.*')[0])
import crossprob
TMP = tempfile.mkdtemp()
import atexit, shutil
atexit.register(shutil.rmtree, TMP, True)
def write(text, name="f.txt"):
    p = os.path.join(TMP, name)
    open(p, "wb").write(text if isinstance(text, bytes) else text.encode())
    return p
def fmt(v): return ", ".join(repr(float(x)) for x in v)
def run(*argv, **kw):
    p = subprocess.run(["/repo/bin/" + argv[0]] + [str(a) for a in argv[1:]], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=200, **kw)
    return p.returncode, p.stdout.decode(errors="replace")
def cli(alg, b, B, *rest):
    prog = "crossprob_mc" if alg in ("ecdf", "poisson") else "crossprob"
    return run(prog, alg, write(fmt(b) + "\n" + fmt(B) + "\n"), *rest)
def two(b, B):
    """Exact Pr[b_i <= X_(i) <= B_i] by a plain recursion on counts (log-factorials, long double not needed)."""
    n = len(b)
    pts = sorted(set([0.0, 1.0] + [x for x in list(b) + list(B) if 0 < x < 1]))
    p = {0: 1.0}
    for x, y in zip(pts, pts[1:]):
        q = {}
        w = y - x
        lo, hi = sum(1 for t in B if t <= y), sum(1 for t in b if t < y)
        if y == 1.0: lo = n
        for j, v in p.items():
            for m in range(max(j, lo), min(n, hi) + 1):
                k = m - j
                t = math.lgamma(n - j + 1) - math.lgamma(n - m + 1) - math.lgamma(k + 1) + k * math.log(w)
                q[m] = q.get(m, 0.0) + v * math.exp(t)
        # v carries prod of w^k * n!/(n-m)!/k!...
        p = q
    return p.get(n, 0.0)
def check(ok, what=""):
    if not ok:
        print("FAILED", what)
        sys.exit(1)
def near(x, y, tol, what=""):
    check(abs(x - y) <= tol, "%s: %r instead of %r" % (what, x, y))
def threaded(work, iterations=300, runs=3, threads=8, timeout=60):
    """A program in which `work` (C++: a string computed from the int k, calling the library) is done by several threads at once,
    then alone: the outcomes must be the same."""
    src, exe = os.path.join(TMP, "t.cc"), os.path.join(TMP, "t")
    open(src, "w").write("""
#include <iterator>
#include <iostream>
#include <limits>
#include <vector>
#include <string>
#include <thread>
#include <atomic>
#include <stdexcept>
#include <cmath>
#include <cstdio>
#include "ecdf2.hh"
#include "ecdf1_new.hh"
#include "ecdf1_mns2016.hh"
#include "read_boundaries_file.hh"
using namespace std;
static vector<double> lower(int n, double c) { vector<double> b(n); for (int i = 0; i < n; ++i) b[i] = max(0.0, (i + 1.0) / n - c); return b; }
static vector<double> upper(int n, double c) { vector<double> B(n); for (int i = 0; i < n; ++i) B[i] = min(1.0, double(i) / n + c); return B; }
static string text(double x) { char s[64]; snprintf(s, sizeof s, "%.9f", x); return s; }
static string work(int k)
{
    try {
""" + work + """
    } catch (exception& e) { return string("error ") + e.what(); }
}
int main(int argc, char** argv)
{
    int T = atoi(argv[1]), iterations = atoi(argv[2]);
    vector<vector<string> > got(T, vector<string>(iterations));
    atomic<int> ready(0);
    vector<thread> ts;
    for (int t = 0; t < T; ++t) ts.push_back(thread([&, t]() { ++ready; while (ready < T) {} for (int i = 0; i < iterations; ++i) got[t][i] = work(i * T + t); }));
    for (auto& t : ts) t.join();
    for (int t = 0; t < T; ++t) for (int i = 0; i < iterations; ++i) if (got[t][i] != work(i * T + t)) { cout << "together: " << got[t][i] << " alone: " << work(i * T + t) << endl; return 1; }
    return 0;
}
""")
    sources = [f for f in glob.glob("/repo/src/*.cc") if os.path.basename(f) not in ("crossprob.cc", "crossprob_mc.cc")]
    p = subprocess.run(["g++", "-std=c++11", "-O2", "-include", "iterator", "-include", "limits", "-I/repo/src", "-o", exe, src] + sources + ["-lfftw3", "-pthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    check(p.returncode == 0, p.stdout.decode()[-800:])
    for _ in range(runs):
        p = subprocess.run(["timeout", str(timeout), exe, str(threads), str(iterations)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        check(p.returncode == 0, (p.returncode, p.stdout.decode(errors="replace")[-300:]))
