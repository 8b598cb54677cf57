"""detect.py [-a] [id...]: run the check of each planted bug's property (-a: all checks) against a patched copy of /repo. Prints who catches what."""
import json, os, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
cmds = {c["property"]: c["quick"] if isinstance(c.get("quick"), str) else c.get("quick_cmd") for c in man["checks"]}
args = [a for a in sys.argv[1:] if a != "-a"]
every = "-a" in sys.argv
for b in sorted(args or os.listdir(os.path.join(VERIF, "seeded"))):
    d = os.path.join(VERIF, "seeded", b)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    t = tempfile.mkdtemp(prefix="det-")
    try:
        shutil.copytree("/repo", t + "/repo", ignore=shutil.ignore_patterns(".git", "_build", "build", "bin"))
        subprocess.run("git init -q . && git apply %s/patch.diff && rm -rf .git" % d, shell=True, cwd=t + "/repo", check=True)
        got = []
        for p in ([prop] if not every else sorted(cmds)):
            t0 = time.time()
            r = subprocess.run(cmds[p], shell=True, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                               env=dict(os.environ, CP_REPO=t + "/repo", CP_OUT=t, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
            hit = r.returncode == 1 and ("VIOLATION property=%s " % p) in r.stdout
            keys = [l.strip()[:110] for l in r.stdout.split("\n") if l.startswith("  ")][:1]
            got.append("%s:%s(%ds)%s" % (p, "CAUGHT" if hit else "rc%d" % r.returncode, time.time() - t0, " " + keys[0] if keys and not every else ""))
            if r.returncode not in (0, 1):
                got.append(r.stdout[-600:])
        print(b, prop, " ".join(got), flush=True)
    finally:
        shutil.rmtree(t, True)
