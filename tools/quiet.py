"""quiet.py [-c Cxx,...] [id...]: run the checks on behaviour-preserving edits (tools/refactors.py) of a copy of /repo. Anything but exit 0 is printed as ALARM."""
import os, shutil, subprocess, sys, tempfile, time, json
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.dont_write_bytecode = True
from refactors import R
man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
cmds = {c["property"]: c["quick"] if isinstance(c.get("quick"), str) else c.get("quick_cmd") for c in man["checks"]}
args = sys.argv[1:]
checks = sorted(cmds)
if args[:1] == ["-c"]:
    checks, args = [c for c in args[1].split(",") if c in cmds], args[2:]
for rid, edits in R:
    if args and rid not in args:
        continue
    t = tempfile.mkdtemp(prefix="quiet-")
    try:
        shutil.copytree("/repo", t + "/repo", ignore=shutil.ignore_patterns(".git", "_build", "build", "bin"))
        bad = False
        for f, old, new in edits:
            p = os.path.join(t, "repo", f)
            s = open(p).read()
            if s.count(old) != 1:
                print(rid, "EDIT matches %d times: %r" % (s.count(old), old[:80]))
                bad = True
                continue
            open(p, "w").write(s.replace(old, new))
        if bad:
            continue
        r = subprocess.run("make -j8 CXX='g++ -include iterator -include limits' all", shell=True, cwd=t + "/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(rid, "DOES NOT BUILD", r.stdout[-1500:])
            continue
        subprocess.run("make clean", shell=True, cwd=t + "/repo", stdout=subprocess.DEVNULL)
        subprocess.run("cp /repo/python_extension/* python_extension/", shell=True, cwd=t + "/repo")
        for p in checks:
            t0 = time.time()
            r = subprocess.run(cmds[p], shell=True, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                               env=dict(os.environ, CP_REPO=t + "/repo", CP_OUT=t, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
            if r.returncode:
                print("ALARM", rid, p, "rc=%d" % r.returncode, r.stdout[-1200:], flush=True)
            else:
                print("quiet", rid, p, "%ds" % (time.time() - t0), flush=True)
    finally:
        shutil.rmtree(t, True)
