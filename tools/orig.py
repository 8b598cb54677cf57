"""orig.py: for each planted bug, does it touch lines of the original repository (blame), and not only ones added by fix: commits?"""
import os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD; git -C /repo log --format='%H %s' | grep -v ' fix:' | head -1 | cut -d' ' -f1", shell=True, stdout=subprocess.PIPE, text=True).stdout.split()
blame = {}
def bl(f):
    if f not in blame:
        blame[f] = [l.split()[0].lstrip("^") for l in subprocess.run(["git", "-C", "/repo", "blame", "-l", "--abbrev=40", "HEAD", "--", f], stdout=subprocess.PIPE, text=True, errors="replace").stdout.splitlines()]
    return blame[f]
def orig(h):
    return any(b.startswith(h[:39]) for b in base)
fixes = [l.split()[0] for l in subprocess.run("git -C /repo log --format='%H %s'", shell=True, stdout=subprocess.PIPE, text=True).stdout.splitlines() if " fix:" in l]
for d in sorted(os.listdir(V + "/seeded")):
    f, removed, adj = None, [], []
    for l in open(V + "/seeded/%s/patch.diff" % d, errors="replace"):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1)) - 1; prev = None
        elif l.startswith("-") and f and not l.startswith("---"):
            removed.append(bl(f)[n]); n += 1
        elif l.startswith("+") and not l.startswith("+++"):
            adj.append(bl(f)[max(0, n - 1)])
        elif l.startswith(" "): n += 1
    isfix = lambda h: any(x.startswith(h[:39]) for x in fixes)
    if (removed and all(map(isfix, removed))) or (not removed and all(map(isfix, adj))):
        print("ONLY OUR LINES", d)
    elif any(map(isfix, removed)):
        print("some of ours removed", d, sum(map(isfix, removed)), len(removed))
    elif not removed:
        print("insert only", d)
