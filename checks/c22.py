"""C22: calls made at the same time from several threads of one process do not interfere."""
import os, re, subprocess
import numpy as np
import common, gen, cli

RULE = ("A case is one round: 2 to 16 threads of one process that start together and call random requests of one pool (all library functions and the file reader; valid and invalid; shared read-only arguments). "
        "Every outcome is compared with that of the same request in a process with one thread: rejections and lists read must be identical, probabilities equal within 2e-10. One half of the rounds runs under ThreadSanitizer, "
        "the other under a monitor of FFTW's threading rules that injects delays (harness/planmon.c). Distinct by (build, pool, threads, order of the events seen by the monitor); non-trivial when at least two calls were under way at once.")
TOL = 2e-10


def build(fl):
    """The concurrent driver around the library of /repo's tree."""
    d = common.build(fl, driver=False)
    objs = [os.path.join(d, "build", f) for f in sorted(os.listdir(os.path.join(d, "build"))) if f.endswith(".o") and f not in ("crossprob.o", "crossprob_mc.o")]
    exe = os.path.join(d, "threads")
    common.sh(["g++"] + common.INC.split() + common.FLAVOURS[fl][0].split() + ["-std=c++11", "-O1", "-g", "-I", os.path.join(d, "src"), "-o", exe, os.path.join(common.HARNESS, "threads.cc")]
              + objs + ["-lfftw3", "-ldl", "-pthread"])
    return exe


def request(fn, b, B):
    return "%s %d %d %s %s" % (fn, len(b), len(B), common.hexs(b), common.hexs(B))


def pool(rng, scale, kind):
    """About 20 requests, with sizes on either side of the library's own thresholds."""
    out = []
    size = lambda lo, hi: int(np.exp(rng.uniform(np.log(lo), np.log(hi))))
    fams = gen.LIVELY + ["unif2", "vacuous", "edge"]
    if kind == "fft":
        want = ["2.fft", "b.new", "B.new"] * 5
    elif kind == "long":        # thousands of states, few steps: every transform length has its own plan
        for j in range(16):
            n = int(rng.integers(1500, 9000) * (1 if scale == 1 or j % 2 else 0.6))
            b, B = np.zeros(n), np.ones(n)
            b[-int(rng.integers(1, n // 2)):] = rng.uniform(0.3, 0.6)
            B[:int(rng.integers(1, n // 2))] = rng.uniform(0.6, 0.9)
            if rng.random() < 0.5:
                b[-1] = rng.uniform(0.6, 0.99)
            out.append(request("2.fft", b, B) if j < 13 else "file " + cli.write(cli.bounds(b, B)))
        want = ["b.new", "B.new", "bad"]
    elif kind == "plain":
        want = ["2.ks", "b.mns", "B.mns", "bad", "file"] * 4
    elif kind == "small":
        want = ["2.fft", "2.ks", "b.new", "B.new", "b.mns", "B.mns", "bad", "file"] * 3
    else:
        want = ["2.fft", "2.ks", "b.new", "B.new", "b.mns", "B.mns", "2.fft", "b.new", "bad", "bad", "file", "file"] * 2
    for fn in want:
        top = {"2.fft": 500, "b.new": 1300, "B.new": 1300, "b.mns": 150, "B.mns": 150, "2.ks": 70, "bad": 200, "file": 40}[fn] * scale
        n = size(1, 12) if kind == "small" or rng.random() < 0.15 else size(min(130, top // 3), top)
        b, B = gen.FAMILIES[fams[int(rng.integers(len(fams)))]](n, rng)
        if fn == "bad":
            z = int(rng.integers(5))
            g = ["2.fft", "2.ks", "b.new", "B.mns", "b.mns", "B.new"][int(rng.integers(6))]
            v = np.array(B if g[0] == "B" else b)
            if z == 0:
                v[-1] = 1.5
            elif z == 1:
                v[0] = -0.5
            elif z == 2 and n > 1:
                v[n // 2], v[n // 2 - 1] = 0.2, 0.7
            elif z == 3:
                v[int(rng.integers(n))] = np.nan
            else:
                v = v[:-1]
                if g[0] != "2":
                    v = np.append(v, 2.0)
            out.append(request(g, [], v) if g[0] == "B" else request(g, v, []) if g[0] == "b" else request(g, v, B))
        elif fn == "file":
            z = int(rng.integers(5))
            text = cli.bounds(b, B if z else []) if z < 3 else "0.1, 0.2\n0.5, x%d\n" % n if z == 3 else "0.5, 1e999\n" + "0.%d" % n
            out.append("file " + (cli.write(text) if rng.random() < 0.9 else "/nonexistent/%d" % n))
        else:
            out.append(request(fn, [], B) if fn[0] == "B" else request(fn, b, []) if fn[0] == "b" else request(fn, b, B))
    return out


def main():
    chk = common.Check("C22", RULE)
    k = 8 if chk.thorough else 1
    exe = {fl: build(fl) for fl in ("prod", "tsan")}
    mon = common.build_so("planmon")
    kinds = ["mixed", "fft", "plain", "small", "long"]
    pools = {}
    for i in range(10 * k):
        for fl, scale in (("prod", 1.0), ("tsan", 0.4)):
            pools[fl, i] = pool(chk.rng(1, i), scale, kinds[i % 5])
    items = [(fl, i, r) for r in range(32 if not chk.thorough else 48) for fl in ("tsan", "prod") for i in range(10 * k)]

    def start(fl, i, T, calls, seed, env, timeout):
        return subprocess.run([exe[fl], str(T), str(calls), str(seed)], input=("\n".join(pools[fl, i]) + "\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, **env), timeout=timeout)

    def parse(p):
        got, s, m = {}, None, None
        for line in p.stdout.decode(errors="replace").split("\n"):
            w = line.split(" ", 2)
            if w[0] == "S":
                s = list(map(int, line.split()[1:]))
            elif w[0] == "P":
                f = line.split(" ", 6)
                m = list(map(int, f[1:6])) + [f[6]]
            elif len(w) == 3:
                got.setdefault(int(w[0]), []).append((int(w[1]), w[2]))
        return got, s, m

    import threading
    alone, lock = {}, threading.Lock()

    def reference(fl, i):
        with lock:
            if (fl, i) not in alone:
                p = start(fl, i, 0, 0, 0, {}, 300)
                got, s, _ = parse(p)
                alone[fl, i] = [got[j][0][1] for j in range(len(pools[fl, i]))] if p.returncode == 0 and s and len(got) == len(pools[fl, i]) else (p.returncode, p.stderr[-500:].decode(errors="replace"))
        return alone[fl, i]

    def same(x, y):
        if x == y:
            return True
        if x[:2] == "R " and y[:2] == "R ":
            return abs(float.fromhex(x[2:]) - float.fromhex(y[2:])) <= TOL
        return False

    def body(it):
        fl, i, r = it
        ref = reference(fl, i)
        if isinstance(ref, tuple):
            chk.violation("%s:no-answer-alone" % fl, {"pool": i, "status": common.describe_status(ref[0]), "stderr": ref[1]}, None)
            return
        g = chk.rng(2, i, r)
        T = [2, 3, 4, 8, 16, 6][(i + r) % 6]
        calls = max(3, (120 if fl == "prod" else 40) // T * (3 if kinds[i % 5] in ("plain", "small") else 1))
        seed = int(g.integers(1, 1 << 40))
        env = {"PM_SEED": str(seed), "LD_PRELOAD": mon} if fl == "prod" else {"TSAN_OPTIONS": "exitcode=66:halt_on_error=0:history_size=4"}
        what = {"build": fl, "kind": kinds[i % 5], "pool": i, "threads": T, "calls per thread": calls, "seed": seed, "requests": [q[:100] for q in pools[fl, i]]}
        rep = {"kind": "threads", "flavour": fl, "threads": T, "calls": calls, "seed": seed, "pool": pools[fl, i], "files": {q[5:]: open(q[5:], errors="replace").read() for q in pools[fl, i] if q[:5] == "file " and os.path.exists(q[5:])}}
        try:
            try:
                p = start(fl, i, T, calls, seed, env, 60)
            except subprocess.TimeoutExpired:
                p = start(fl, i, T, calls, seed, env, 180)
        except subprocess.TimeoutExpired:
            chk.violation("%s:hang" % fl, what, rep)
            return
        got, s, m = parse(p)
        err = p.stderr.decode(errors="replace")
        races = re.findall(r"WARNING: ThreadSanitizer: ([^\n(]*)", err)
        if races:
            where = re.findall(r"SUMMARY: ThreadSanitizer: ([^\n]*)", err)
            chk.violation("tsan:%s" % races[0].strip().replace(" ", "-"), dict(what, reports=sorted(set(where))[:10], text=err[:3000]), rep)
        if s is None or (p.returncode != 0 and not races):
            if "FATAL: ThreadSanitizer" in err:
                raise common.HarnessError(err[:500])
            if not races:
                chk.violation("%s:crash" % fl, dict(what, status=common.describe_status(p.returncode), stderr=err[-800:], stdout=p.stdout[-300:].decode(errors="replace")), rep)
            return
        chk.count("rounds_" + fl)
        chk.count("calls_" + fl, s[0])
        chk.count("pairs_of_requests_together", s[2])
        chk.maximum("most_calls_at_once", s[1])
        chk.observe((fl, i, T, s[3] or seed) if s[1] > 1 else None, {"build": fl, "kind": kinds[i % 5], "threads": T, "calls": s[0], "most at once": s[1], "pairs together": s[2], "order of events": s[3]})
        for j, outs in got.items():
            for times, o in outs:
                if not same(ref[j], o):
                    chk.violation("%s:different-answer:%s" % (fl, pools[fl, i][j].split()[0]), dict(what, request=pools[fl, i][j][:300], alone=ref[j][:300], together=o[:300], times=times), rep)
                    break
        if m:
            chk.count("planner_calls", m[0])
            chk.count("fft_executions", m[2])
            chk.count("injected_delays", m[4])
            if m[1]:
                chk.violation("prod:planner-overlap", dict(what, overlaps=m[1], first=m[5]), rep)
            if m[3]:
                chk.violation("prod:array-shared-by-two-threads", dict(what, conflicts=m[3], first=m[5]), rep)

    common.parallel(chk, items, lambda: (body, lambda: None), 4)
    chk.assumptions = ["ThreadSanitizer sees the library's own code and the C functions it intercepts, not the inside of libfftw3 (for which harness/planmon.c checks the rules of its manual)", "races on the C library's signgam are not counted"]
    return chk.finish(100, 80)


if __name__ == "__main__":
    main()
