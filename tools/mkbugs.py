"""mkbugs.py [id...]: (re)generate seeded/<id>/ from tools/bugs.py and verify each bug in /repo:
it applies, builds, passes the stable tests, its demo fails with it and passes without it. /repo is restored."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import bugs
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, "seeded")
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) if isinstance(json.load(open("/opt/vp/BASELINE.json")), dict) else [])


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def clean():
    sh("git -C /repo checkout -- .")


def make(b):
    d = os.path.join(SEEDED, b["id"])
    shutil.rmtree(d, True)
    os.makedirs(d)
    clean()
    for f, old, new in b["edits"]:
        p = os.path.join("/repo", f)
        s = open(p).read()
        if s.count(old) != 1:
            print("  EDIT %s matches %d times: %r" % (f, s.count(old), old[:60]))
            clean()
            return None
        open(p, "w").write(s.replace(old, new))
    open(os.path.join(d, "patch.diff"), "w").write(subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE, text=True).stdout)
    clean()
    shutil.copy(os.path.join(HERE, "demolib.py"), d)
    open(os.path.join(d, "demo.py"), "w").write('import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demolib import *\n' + b["demo"])
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec /usr/bin/python3 -W ignore -B "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what_it_breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    return d


def demo(d):
    t = tempfile.mkdtemp(prefix="demo-")
    try:
        for f in os.listdir(d):
            if f not in ("patch.diff", "meta.json"):
                shutil.copy(os.path.join(d, f), t)
        r = sh("timeout 300 bash %s/demo.sh" % t, cwd="/repo")
        return r.returncode, r.stdout[-300:]
    finally:
        shutil.rmtree(t, True)


def tests():
    r = sh("bash /opt/vp/test.sh /tmp/mkbugs.json")
    return open("/tmp/mkbugs.json").read()


def main():
    only = sys.argv[1:]
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("repo not clean")
    todo = [b for b in bugs.BUGS if not only or b["id"] in only]
    dirs = [(b, make(b)) for b in todo]
    sh("bash /opt/vp/build.sh")
    good = tests()
    bad = []
    for b, d in dirs:
        if d:
            rc, out = demo(d)
            if rc != 0:
                bad.append(b["id"])
                print("DEMO FAILS ON CLEAN TREE", b["id"], rc, out)
    for b, d in dirs:
        if not d:
            bad.append(b["id"])
            continue
        r = sh("git -C /repo apply %s/patch.diff" % d)
        try:
            if r.returncode:
                print("APPLY", b["id"], r.stdout); bad.append(b["id"]); continue
            r = sh("bash /opt/vp/build.sh")
            if r.returncode:
                print("BUILD", b["id"], r.stdout[-1500:]); bad.append(b["id"]); continue
            t = tests()
            if t != good:
                print("TESTS", b["id"], t[-800:]); bad.append(b["id"]); continue
            rc, out = demo(d)
            if rc == 0:
                print("DEMO PASSES WITH THE BUG", b["id"], out); bad.append(b["id"]); continue
            print("ok", b["id"], rc, out.strip()[-160:], flush=True)
        finally:
            clean()
    sh("bash /opt/vp/build.sh")
    print("bad:", bad)
    for x in bad:
        print(x)


main()
