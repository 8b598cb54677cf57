"""run.py --replay FILE: show a recorded violation and execute it again against the current tree."""
import json, os, struct, subprocess
import common, cli
from pylib import PyLib


def num(x):
    if x[0] == "x":
        return struct.unpack("<d", struct.pack("<Q", int(x[1:], 16)))[0]
    return float(x) if x in ("nan", "inf", "-inf") else float.fromhex(x)


def main(path):
    v = json.load(open(path))
    r = v.get("replay")
    print("property %s, seed %s, tier %s\nwhat: %s\nrecorded: %s\n" % (v["property"], v["seed"], v["tier"], v["key"], json.dumps(v["detail"], indent=1)[:6000]))
    if not r:
        print("this violation is about a whole run: re-run  VERIF_SEED=%s VERIF_TIER=%s python3-vt checks/run.py %s" % (v["seed"], v["tier"], v["property"]))
        return 0
    kind, flavour = r["kind"], r.get("flavour", "prod")
    V = ["valgrind", "--vgdb=no", "-q", "--error-exitcode=99", "--leak-check=no"]
    if kind in ("lib", "agree"):
        d = common.build(flavour)
        lib = common.Lib(d, env=common.SAN_ENV if flavour == "asan" else None, timeout=600)
        if flavour == "vg":
            lib.s.argv = V + lib.s.argv
        calls = r["calls"] if kind == "agree" else [[h["fn"], h["b"], h["B"]] for h in r.get("history", [])] + [[r["fn"], r["b"], r["B"]]]
        if r.get("mode") is not None:
            s = common.Server([os.path.join(d, "driver")], env={"LD_PRELOAD": common.build_so("hoststate")}, timeout=600, cwd=common.scratch())
            req = "%d %d %s %s" % (len(r["b"]), len(r["B"]), common.hexs([num(x) for x in r["b"]]), common.hexs([num(x) for x in r["B"]]))
            print("now (trap, items compared, items changed, changes | answer): %s" % s.ask("%%%d,%s %s" % (r["mode"], r["fn"], req)))
            s.close()
        for fn, b, B in calls:
            print("now: %-6s lengths %d,%d -> %s" % (fn, len(b), len(B), lib.call(fn, [num(x) for x in b], [num(x) for x in B])))
        if kind == "lib" and calls:
            b, B = [num(x) for x in r["b"]], [num(x) for x in r["B"]]
            n = max(len(b), len(B))
            try:
                print("reference: %s" % common.Oracle()("E", n, b, B))
            except common.HarnessError:
                pass
        print("expected: %s" % r.get("expected"))
    elif kind == "cli":
        d = common.build(flavour, driver=False)
        argv = list(r["argv"])
        if r.get("file") is not None:
            f = cli.write(r["file"].encode("latin1"))
            if "file_arg" in r:
                argv[1 + r["file_arg"]] = f
            else:
                argv.append(f)
        argv += r.get("tail", [])
        env = dict(r.get("env", {}))
        if env.get("FAKETIME") and flavour != "asan":
            env["LD_PRELOAD"] = common.build_so("faketime")
        if flavour == "asan":
            env.update(common.SAN_ENV)
        kw = {"stdout": open("/dev/full", "wb")} if r.get("stdout_to") == "full" else {}
        q = cli.run((V if flavour == "vg" or r.get("tool") == "valgrind" else []) + [os.path.join(d, "bin", argv[0])] + argv[1:], env=env, **kw)
        print("now: %s" % json.dumps(q.brief(), indent=1))
        print("expected: %s%s" % (r.get("expected"), ", delivered as: %s" % r["delivery"] if r.get("delivery") else ""))
    elif kind == "py":
        P = PyLib(common.build_pyext(r.get("regenerate", False)))
        if r.get("request"):
            print("now: %s" % P.ask(r["request"]))
        else:
            print("now: %s" % P.call(r["fn"], [num(x) for x in r["b"]], [num(x) for x in r["B"]]))
        print("expected: %s" % r.get("expected"))
    elif kind == "pyleak":
        py, mt = common.build_pyext(), common.build_so("memtrace")
        q = cli.run(["/usr/bin/python3", os.path.join(common.HARNESS, "pyleak.py"), r["what"], "5", "400"], env={"LD_PRELOAD": mt, "PYTHONPATH": py, "PYTHONMALLOC": "malloc"})
        print("now (live bytes, blocks after each round of 400 calls): %s" % q.out.decode())
    elif kind == "growth":
        import c16
        d = common.build("prod")
        for n in (r["n"], 2 * r["n"], 4 * r["n"]):
            b, B = c16.shape(r["shape"], n)
            b, B = ([], B) if r["fn"][0] == "B" else (b, []) if r["fn"][0] == "b" else (b, B)
            req = "%s %d %d %s %s\n" % (r["fn"], len(b), len(B), common.hexs(b), common.hexs(B))
            t0 = os.times().children_user
            subprocess.run([os.path.join(d, "driver")], input=req.encode(), stdout=subprocess.DEVNULL)
            print("now: n=%d cpu %.3fs" % (n, os.times().children_user - t0))
    elif kind == "threads":
        import c22
        exe = c22.build(flavour)
        pool = list(r["pool"])
        for i, q in enumerate(pool):
            if q[:5] == "file " and q[5:] in r["files"]:
                pool[i] = "file " + cli.write(r["files"][q[5:]])
        env = {"PM_SEED": str(r["seed"]), "LD_PRELOAD": common.build_so("planmon")} if flavour == "prod" else {"TSAN_OPTIONS": "exitcode=66:halt_on_error=0"}
        ask = lambda T, e: subprocess.run([exe, str(T), str(r["calls"] if T else 0), str(r["seed"])], input=("\n".join(pool) + "\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, **e))
        print("requests:\n%s\nalone:\n%s" % ("\n".join(q[:200] for q in pool), ask(0, {}).stdout.decode(errors="replace")))
        for _ in range(5):
            p = ask(r["threads"], env)
            print("together (%d threads): status %d\n%s%s" % (r["threads"], p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")[:5000]))
    return 0
