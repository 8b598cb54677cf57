"""mutate.py OUT [LIMIT] [SEED]: plant small mechanical mutations (operators, constants, dropped statements) in copies of /repo, keep those that compile and pass
the stable tests, and run the checks on each (cheap ones first) until one catches it. Survivors are printed for a look by hand.
Run it as: tools/inns.sh python3 tools/mutate.py OUT  (it edits the private copy mounted over /repo)."""
import json, os, random, re, subprocess, sys, tempfile, time, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT, LIMIT, SEED = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 10 ** 9, int(sys.argv[3]) if len(sys.argv) > 3 else 1
man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
cmd = {c["property"]: c["quick"] if isinstance(c.get("quick"), str) else c.get("quick_cmd") for c in man["checks"]}
ORDER = {"lib": "C01 C04 C03 C06 C17 C14 C02 C12 C07 C15 C18 C19 C05 C13 C08 C16 C10 C09 C11".split(),
         "mc": "C08 C07 C09 C10 C11 C12 C19 C18".split(),
         "io": "C07 C08 C06 C18 C12 C19 C01".split(),
         "py": "C15 C14 C13 C19 C12".split()}
FILES = {"src/ecdf1_new.cc": "lib", "src/ecdf2.cc": "lib", "src/ecdf1_mns2016.cc": "lib", "src/fftwconvolver.cc": "lib", "src/poisson_pmf.cc": "lib", "src/poisson_pmf.hh": "lib", "src/common.cc": "lib", "src/common.hh": "lib", "src/aligned_mem.hh": "lib",
         "src/crossprob.cc": "io", "src/read_boundaries_file.cc": "io", "src/string_utils.cc": "io", "src/crossprob_mc.cc": "mc", "src/tinymt64.cc": "mc", "src/tinymt64.h": "mc"}
RULES = [(r"<=", "<"), (r"(?<![<\-])<(?![<=])", "<="), (r">=", ">"), (r"(?<![>\-])>(?![>=])", ">="), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
         (r"\+ ?1\b(?!\.)", "+2"), (r"\+ ?1\b(?!\.)", ""), (r"- ?1\b(?!\.)", ""), (r"- ?1\b(?!\.)", "-2"), (r"\+(?![+=\d])(?<!\+\+)", "-"), (r"(?<![-(,=<>eE ])-(?![->=\d])", "+"), (r"\*(?=[\w(])", "/"), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "0"),
         (r"\b0\.0\b", "1.0"), (r"\b1\.0\b", "0.5"), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\b2\*", "1*"), (r"\+=", "-="), (r"-=", "+="), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bn\b", "(n-1)"), (r"\bn\b", "(n+1)"),
         (r"\bb\b(?!\.|_)", "B"), (r"\bB\b(?!\.|_)", "b"), (r"\bdouble\b", "float"), (r"\blong\b", "int"), (r"(?<=\S)\bi\b", "(i+1)"), (r"\bif \((.*)\) \{", "if (false) {")]


def mutants():
    out = []
    for f in FILES:
        lines = open("/repo/" + f).read().split("\n")
        comment = False
        for k, l in enumerate(lines):
            s = l.strip()
            if "/*" in s and "*/" not in s:
                comment = True
            if "*/" in s:
                comment = False
                continue
            if comment or not s or s.startswith(("//", "#", "*", "cout <<", "using ", "ss <<", "assert")) or "operator<<" in s or s.startswith("stream"):
                continue
            code = l.split("//")[0]
            if '"' in code and "throw" in code:
                continue
            for pat, rep in RULES:
                for m in re.finditer(pat, code):
                    if code[:m.start()].count('"') % 2:
                        continue
                    if pat == r"\bdouble\b" and ("vector" in code and "vector<double>" not in code):
                        continue
                    new = code[:m.start()] + (m.expand(rep) if "\\" in rep else rep) + code[m.end():]
                    if new != code:
                        out.append((f, k, new))
            if s.endswith(";") and not s.startswith(("return", "}", "throw", "break")) and "(" in s or re.match(r"\w[\w\[\]\.\->_]* *[-+*/]?= ", s) and s.endswith(";"):
                out.append((f, k, re.match(r"\s*", l).group(0) + ";"))
    return out


def sh(c, t=900, **kw):
    try:
        return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t, **kw)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(c, 124, "timeout", "")


def tests():
    sh("rm -f /tmp/mut/t.json; timeout 60 bash /opt/vp/test.sh /tmp/mut/t.json")
    try:
        return open("/tmp/mut/t.json").read()
    except OSError:
        return None


ms = mutants()
random.Random(SEED).shuffle(ms)
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        j = json.loads(l)
        done.add((j["file"], j["line"], j["new"]))
print(len(ms), "mutants;", len(done), "done", flush=True)
sh("bash /opt/vp/build.sh programs")
good = tests()
n = 0
for f, k, new in ms:
    if (f, k, new) in done:
        continue
    if n >= LIMIT:
        break
    p = "/repo/" + f
    orig = open(p).read()
    lines = orig.split("\n")
    old = lines[k]
    lines[k] = new
    open(p, "w").write("\n".join(lines))
    j = {"file": f, "line": k, "old": old, "new": new}
    try:
        if sh("bash /opt/vp/build.sh programs", 120).returncode:
            j["state"] = "does not build"
        elif tests() != good:
            j["state"] = "fails the tests"
        elif sh("bash /opt/vp/build.sh", 300).returncode:
            j["state"] = "python does not build"
        else:
            n += 1
            j["state"], j["ran"] = "survived", {}
            t = tempfile.mkdtemp(prefix="mut-")
            for c in ORDER[FILES[f]]:
                t0 = time.time()
                r = sh(cmd[c], cwd=VERIF, env=dict(os.environ, CP_REPO="/repo", CP_OUT=t, VERIF_SEED="1", VERIF_TIER="quick"))
                j["ran"][c] = [r.returncode, round(time.time() - t0, 1)]
                if r.returncode not in (0, 1):
                    j.setdefault("odd", []).append([c, r.stdout[-500:]])
                if r.returncode == 1:
                    j["state"] = "caught by " + c
                    j["key"] = [l.strip()[:150] for l in r.stdout.split("\n") if l.startswith("  ")][:1]
                    break
            shutil.rmtree(t, True)
            print("%s %s:%d %r -> %r %s" % (j["state"], f, k + 1, old.strip(), new.strip(), json.dumps(j["ran"])), flush=True)
    finally:
        open(p, "w").write(orig)
    open(OUT, "a").write(json.dumps(j) + "\n")
