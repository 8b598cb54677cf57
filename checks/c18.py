"""C18: the answers do not depend on the compiler, its settings or the link order."""
import os, shutil, stat
import numpy as np
import common, gen, cli
from c04 import narrow, cells, faraway, near_edges
from c06 import offend, KINDS

RULE = ("A case is one library call or one run of a program in one of seven builds of the same working tree (two compilers, -O0 to -O3, with and without -ffast-math, assertions and NDEBUG, signed and unsigned char, "
        "pattern-filled and zero-filled automatic variables, reversed link order), compared with the build made by the Makefile's own flags: the same probability up to rounding, the same rejections, the same outcome of the commands, "
        "the same simulated numbers for the same clock. Distinct by (build, call); non-trivial when the boundary is not empty.")
LIB = ("b.new", "B.new", "b.mns", "B.mns", "2.ks", "2.fft")
STD = "-Wall -std=c++11 "
# name: compiler, flags (None: the Makefile's), reversed link order, extra environment
VARIANTS = {
    "gcc-makefile": ("g++", None, False, {}),
    "clang-makefile": ("clang++", None, False, {}),
    "gcc-O0": ("g++", STD + "-O0 -g", False, {"MALLOC_PERTURB_": "85"}),
    "clang-O0": ("clang++", STD + "-O0 -g -ftrivial-auto-var-init=pattern", True, {"MALLOC_PERTURB_": "170"}),
    "gcc-ndebug": ("g++", STD + "-O2 -DNDEBUG -funsigned-char -ftrivial-auto-var-init=pattern", True, {"MALLOC_PERTURB_": "1"}),
    "gcc-zero": ("g++", STD + "-O1 -ftrivial-auto-var-init=zero -fno-inline", False, {"MALLOC_PERTURB_": "255"}),
    "clang-O2": ("clang++", STD + "-O2 -DNDEBUG -funsigned-char -fwrapv", False, {"MALLOC_PERTURB_": "127"}),
}


def build(name):
    cxx, flags, rev, env = VARIANTS[name]
    d = os.path.join(common.scratch(), "v-" + name)
    os.makedirs(d)
    shutil.copytree(os.path.join(common.REPO, "src"), os.path.join(d, "src"))
    shutil.copy(os.path.join(common.REPO, "Makefile"), d)
    cmd = ["make", "CXX=%s %s" % (cxx, common.INC), "all"]
    if flags:
        cmd += ["CXXFLAGS=" + flags, "LDFLAGS=-g -lfftw3"]
    if rev:
        ld = os.path.join(d, "revld")
        with open(ld, "w") as f:
            f.write('#!/bin/bash\nobj=(); rest=()\nfor a in "$@"; do case "$a" in *.o) if [ "$last" = -o ]; then rest+=("$a"); else obj=("$a" "${obj[@]}"); fi;; *) rest+=("$a");; esac; last="$a"; done\nexec %s "${obj[@]}" "${rest[@]}"\n' % cxx)
        os.chmod(ld, 0o755)
        cmd.append("LD=" + ld)
    e = {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "CXXFLAGS", "LDFLAGS", "CFLAGS", "CPPFLAGS")}
    common.sh(cmd, cwd=d, env=e)
    objs = [os.path.join(d, "build", f) for f in sorted(os.listdir(os.path.join(d, "build")), reverse=rev) if f.endswith(".o") and f not in ("crossprob.o", "crossprob_mc.o")]
    common.sh([cxx] + common.INC.split() + ["-std=c++11", "-O1", "-I", os.path.join(d, "src"), "-o", os.path.join(d, "driver"), os.path.join(common.HARNESS, "driver.cc")] + objs + ["-lfftw3"])
    return d


def main():
    chk = common.Check("C18", RULE)
    names = list(VARIANTS)
    with __import__("concurrent.futures").futures.ThreadPoolExecutor(common.NPROC) as ex:
        common.scratch()
        dirs = dict(zip(names, ex.map(build, names)))
    fake = common.build_so("faketime")
    k = 10 if chk.thorough else 1
    fams = list(gen.FAMILIES)
    rng = chk.rng(1)
    items = []
    for n in (2100, 2048, 1500, 1025, 600, 400):
        for fn in ("b.new", "B.new", "2.fft", "b.mns", "B.mns"):
            if fn.endswith("mns") and n > 1100:
                continue
            items += [("value", fn, n, f, i) for i, f in enumerate(("tube", "coarse"))]
    for fn in LIB:
        items += [("value", fn, n, "tube", 0) for n in (0, 1, 2, 3, 16, 17, 126, 127, 128, 129, 130, 200)]
    items += [("value", LIB[i % 6], int(rng.choice([1, 2, 3, 5, 9, 20, 50, 90, 140])), fams[i % len(fams)], 10 + i) for i in range(500 * k)]
    items += [("tail", "2.ks", int(rng.integers(1, 80)), ("narrow", "cells", "faraway", "near_edges")[i % 4], i) for i in range(80 * k)]
    items += [("bad", LIB[i % 6], int(rng.choice([1, 2, 3, 10, 40, 130])), (KINDS + ("length",))[i % (len(KINDS) + 1)], i) for i in range(250 * k)]
    items += [("cli", "", 0, "", i) for i in range(160 * k)] + [("mc", "", 0, "", i) for i in range(100 * k)]
    items += [("odd", "", 0, "", i) for i in range(200 * k)]
    odd = [b"", b"\n", b"0.5\n", b"0.1, x\n\n", b"\xe9, 0.5\n\n", b"0.5\xa0\n\n", b"\xff\n\n", b"0.1\xc3\xa90.2\n\n", b"0.1\xe90.2\n\n", b"0.1,0.2\xa0\n\n", b"0.1\x80,0.2\n\n", b"0.1, 0.2\xff0.3\n\n", b"\xef\xbb\xbf0.1,0.2\n\n", b"0.5,,0.6\n\n", b"0.5\n0.6\n", b"0.9, 0.1\n\n", b"nan\n\n", b"-0.1\n\n", b"0.5, 1.5\n\n", b"\n0.5, 0.2\n",
           b"0.1, 0.2\n0.3\n", b"0.5\n\n", b"\n0.5\n", b"0.25, 0.5,\n\n", b"1e-320\n\n", b"1e400\n\n", b"0x1p-1\n\n", b"inf\n\n", b"\n\n", b"0.3\r\n\r\n", b"0.3 0.4\n\n", b"\t0.3\n\n", b"\x00\n\n", b"0.1, 0.2, 0.3\n0.2, 0.5, 0.9", b"\xc2\xa00.5\n\n"]
    sims = ["1000", "10", "1", "0", "-4", "1e3", "", "\xe9", "99999999999999999999", " 7", "12x", "+50", "0x10"]

    def compare(what, fn, label, base, got, name, n, tail, detail, rep):
        """base, got: (kind, value) of the library protocol."""
        if base[0] != got[0] or base[0] not in ("R", "E"):
            chk.violation("%s:%s:%s:different-outcome" % (name, fn, label), dict(detail, makefile_build=str(base)[:300], this_build=str(got)[:600]), rep)
        elif base[0] == "R":
            e = abs(base[1] - got[1])
            chk.maximum("max_difference", e)
            if not e <= 2e-10 or (tail and base[1] > 1e-290 and not e <= 1e-8 * base[1]):
                chk.violation("%s:%s:%s:different-value" % (name, fn, label), dict(detail, makefile_build=base[1], this_build=got[1]), rep)

    def body(w, it):
        what, fn, n, f, i = it
        r = chk.rng(2, n, sum(map(ord, what + fn)), sum(map(ord, f)), i)
        if what in ("value", "tail", "bad"):
            if what == "value":
                b, B = gen.FAMILIES[f](n, r) if n else (np.zeros(0), np.zeros(0))
            elif what == "tail":
                b, B = {"narrow": narrow, "cells": cells, "faraway": faraway, "near_edges": near_edges}[f](n, r)
            else:
                b, B = gen.FAMILIES["tube"](n, r)
                if f == "length":
                    fn = "2.ks" if i % 2 else "2.fft"
                    b, B = (b[:-1], B) if i % 4 < 2 else (b, np.append(B, 1.0))
                else:
                    pos = int(r.integers(n))
                    x, y = offend(b, f, pos, r), offend(B, f, pos, r)
                    if x is None or y is None:
                        return
                    b, B = (x, y) if fn[0] != "2" else [(x, B), (b, y)][i // 6 % 2]
            b, B = (b, []) if fn[0] == "b" else ([], B) if fn[0] == "B" else (b, B)
            rep = {"kind": "lib", "fn": fn, "b": [common.hexf(x) for x in b], "B": [common.hexf(x) for x in B], "expected": "the same in every build"}
            base = None
            for name in names:
                if name not in w:
                    w[name] = common.Lib(dirs[name], env=VARIANTS[name][3], timeout=120)
                a = w[name].call(fn, b, B)
                chk.observe((name, fn, np.asarray(b, float).tobytes(), np.asarray(B, float).tobytes()) if n else None,
                            lambda: {"build": name, "fn": fn, "n": n, "case": f, "answer": str(a)[:80]})
                chk.count("%s_%s" % (what, name))
                if base is None:
                    base = a
                else:
                    compare(what, fn, f, base, a, name, n, what == "tail", {"n": n, "b": list(map(float, b[:8])), "B": list(map(float, B[:8]))}, rep)
            return
        env = {}
        if what == "cli":
            n = int(r.choice([1, 2, 3, 6, 20, 60, 135]))
            b, B = gen.FAMILIES[fams[i % len(fams)]](n, r)
            m = cli.ALGOS[i % 4]
            if m.startswith("ecdf1"):
                b, B = (b, []) if r.random() < 0.5 else ([], B)
            content, prog, args = cli.bounds(b, B).encode(), "crossprob", [m]
            tail = []
        elif what == "mc":
            n = int(r.choice([1, 2, 3, 6, 20, 60]))
            b, B = gen.FAMILIES[gen.LIVELY[i % len(gen.LIVELY)]](n, r)
            z = int(r.integers(4))
            b, B = ([] if z == 0 else b), ([] if z == 1 else B)
            content, prog, args, tail = cli.bounds(b, B).encode(), "crossprob_mc", [["ecdf", "poisson"][i % 2]], [str(int(r.choice([1, 7, 100, 2000])))]
        else:
            content = odd[i % len(odd)]
            if r.random() < 0.5:
                prog, args, tail = "crossprob", [cli.ALGOS[int(r.integers(4))] if r.random() < 0.9 else "ecdf\xe9"], []
            else:
                prog, args, tail = "crossprob_mc", [["ecdf", "poisson"][int(r.integers(2))]], [sims[int(r.integers(len(sims)))]]
                if content in (b"nan\n\n", b"inf\n\n", b"1e400\n\n"):  # crossprob_mc does not reject boundaries that are not finite, and -ffast-math says nothing about them: not judged
                    prog, args, tail = "crossprob", [cli.ALGOS[i % 4]], []
        env = {"LD_PRELOAD": fake, "FAKETIME": str(1500000000 + int(r.integers(2 * 10 ** 8)))} if prog == "crossprob_mc" else {}
        path = cli.write(content)
        base = None
        for name in names:
            q = cli.run([os.path.join(dirs[name], "bin", prog)] + args + [path] + tail, env=dict(env, **VARIANTS[name][3]))
            o = (None if q.hang else q.status, q.value)
            chk.observe((name, prog, tuple(args + tail), content), lambda: {"build": name, "prog": prog, "args": args + tail, "file": content[:60].decode("latin1"), "outcome": o})
            chk.count("%s_%s" % (what, name))
            if base is None:
                base, first = o, q
            elif o[0] != base[0] or (o[1] is None) != (base[1] is None) or (o[1] is not None and abs(o[1] - base[1]) > 1.1e-6 * max(base[1], 1e-300) + (2e-10 if prog == "crossprob" else 0)):
                chk.violation("%s:%s:%s:different-outcome" % (name, prog, args[0].encode("ascii", "replace").decode()), {"makefile_build": first.brief(), "this_build": q.brief(), "file": content[:300].decode("latin1")},
                              {"kind": "cli", "argv": [prog] + args, "tail": tail, "file": content.decode("latin1"), "env": {k: v for k, v in env.items() if k == "FAKETIME"}, "expected": "the same in every build"})
        os.unlink(path)

    def make():
        w = {}
        return (lambda it: body(w, it)), (lambda: [x.close() for x in w.values()])
    common.parallel(chk, items, make)
    chk.assumptions = ["'the same' is 2e-10, 1e-8 relative in the direct mode's tail, one unit of the sixth digit in print", "crossprob_mc is not judged on boundaries that are not finite", "only the two installed compilers and x86-64"]
    return chk.finish(7000, 5000)
