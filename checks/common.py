"""Shared machinery: builds of /repo's working tree, child-process servers, verdicts, evidence."""
import atexit, hashlib, json, multiprocessing, os, pickle, resource, select, shutil, signal, subprocess, struct, sys, tempfile, threading, time, traceback
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CP_REPO", "/repo")         # both only for tools/detect.py, which looks at patched copies
OUT = os.environ.get("CP_OUT", VERIF)
HARNESS = os.path.join(VERIF, "harness")
NPROC = min(8, os.cpu_count() or 1)
INC = "-include iterator -include limits"          # same as /opt/vp/build.sh: the sources miss two headers

_scratch = None
FIRST = multiprocessing.get_context("fork").Value("d", 0.0)      # when the first violation was seen
STARTED = time.time()
STOP = multiprocessing.get_context("fork").Event()      # set once enough violations were seen (or something hung): no point in going on

def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="cpv-")
        os.chmod(_scratch, 0o755)
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


class HarnessError(Exception):
    """Something about the harness (not the code under test) went wrong: exit 2, no verdict."""


class Inconclusive(HarnessError):
    pass


def sh(cmd, cwd=None, env=None, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, text=True, errors="replace")
    if r.returncode != 0:
        raise HarnessError("command failed (%d): %s\n%s" % (r.returncode, cmd, r.stdout[-4000:]))
    return r.stdout


SAN = "-fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer"
FLAVOURS = {
    # name: (extra compiler-driver flags, CXXFLAGS override or None to keep the Makefile's own)
    "prod": ("", None),
    "asan": (SAN, "-Wall -std=c++11 -O1 -g -D_GLIBCXX_SANITIZE_VECTOR=1 -D_GLIBCXX_ASSERTIONS=1"),
    "tsan": ("-fsanitize=thread", "-Wall -std=c++11 -O1 -g"),
    # valgrind 3.22 has no AVX-512 and -march=native might emit it
    "vg": ("", "-Wall -std=c++11 -O1 -g -ffast-math -fwrapv -march=x86-64-v2"),
    "cg": ("", "-Wall -std=c++11 -O3 -g -ffast-math -fwrapv -march=x86-64-v2"),
}


def build(flavour, driver=True, programs=True, reader=False):
    """Copy /repo's working tree and build it there with its own Makefile. Returns the directory."""
    d = os.path.join(scratch(), flavour)
    os.makedirs(d)
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "src"))
    shutil.copy(os.path.join(REPO, "Makefile"), d)
    extra, cxxflags = FLAVOURS[flavour]
    cmd = ["make", "-j%d" % NPROC, "CXX=g++ %s %s" % (INC, extra)]
    if cxxflags:
        cmd.append("CXXFLAGS=" + cxxflags)
        cmd.append("LDFLAGS=-g -lfftw3")
    cmd.append("all")
    env = {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "CXXFLAGS", "LDFLAGS", "CFLAGS", "CPPFLAGS")}
    sh(cmd, cwd=d, env=env)
    if driver:
        objs = [os.path.join(d, "build", f) for f in sorted(os.listdir(os.path.join(d, "build")))
                if f.endswith(".o") and f not in ("crossprob.o", "crossprob_mc.o")]
        sh(["g++"] + INC.split() + extra.split() + (["-D_GLIBCXX_SANITIZE_VECTOR=1", "-D_GLIBCXX_ASSERTIONS=1"] if flavour == "asan" else [])
           + (["-DWITH_READER"] if reader else [])
           + ["-std=c++11", "-O1", "-g", "-I", os.path.join(d, "src"), "-o", os.path.join(d, "driver"), os.path.join(HARNESS, "driver.cc")]
           + objs + ["-lfftw3"])
    return d


_oracle = None


def build_oracle():
    global _oracle
    if _oracle is None:
        _oracle = os.path.join(scratch(), "oracle")
        sh(["g++", "-std=c++11", "-O2", "-march=native", "-Wall", "-o", _oracle, os.path.join(HARNESS, "oracle.cc")])
    return _oracle


def build_so(name):
    out = os.path.join(scratch(), name + ".so")
    sh(["gcc", "-O1", "-g", "-Wall", "-fPIC", "-shared", "-o", out, os.path.join(HARNESS, name + ".c"), "-ldl", "-lpthread"])
    return out


def build_pyext(regenerate=False):
    """Build the Python extension from /repo's tree; returns the directory to put on PYTHONPATH."""
    d = os.path.join(scratch(), "pyext-regen" if regenerate else "pyext")
    os.makedirs(d)
    for sub in ("src", "python_extension"):
        shutil.copytree(os.path.join(REPO, sub), os.path.join(d, sub))
    shutil.copy(os.path.join(REPO, "setup.py"), d)
    if regenerate:
        sh(["swig", "-c++", "-o", "python_extension/crossprob.cc", "-python", "src/crossprob.i"], cwd=d)
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "CXXFLAGS", "LDFLAGS", "CPPFLAGS")}
    env.update(CC="gcc", CXX="g++", CFLAGS=INC, PATH="/usr/bin:/bin:/usr/sbin:/sbin", PYTHONDONTWRITEBYTECODE="1")
    sh(["/usr/bin/python3", "-W", "ignore", "setup.py", "-q", "build", "--build-base", "bb"], cwd=d, env=env)
    libs = [x for x in os.listdir(os.path.join(d, "bb")) if x.startswith("lib")]
    return os.path.join(d, "bb", libs[0])


def hexf(x):
    """A double as text: hexadecimal floating point, and the bits themselves for a NaN (its sign and payload count)."""
    x = float(x)
    return x.hex() if x == x else "x%016x" % struct.unpack("<Q", struct.pack("<d", x))


def hexs(v):
    return " ".join(hexf(x) for x in v)


SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=1:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:allocator_may_return_null=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    "LSAN_OPTIONS": "exitcode=23",
}


class Died(Exception):
    def __init__(self, status, stderr):
        super().__init__("process died with status %s" % status)
        self.status, self.stderr = status, stderr


class Hang(Exception):
    pass


class Server:
    """A line-in/line-out child process. Restarted transparently after it died."""

    def __init__(self, argv, env=None, timeout=60, as_limit=None, cwd=None):
        self.argv, self.timeout, self.as_limit, self.cwd = argv, timeout, as_limit, cwd
        self.env = dict(os.environ, **(env or {}))
        self.p = None

    def start(self):
        self.err = tempfile.TemporaryFile(dir=scratch())

        def pre():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if self.as_limit:
                resource.setrlimit(resource.RLIMIT_AS, (self.as_limit, self.as_limit))
        self.p = subprocess.Popen(self.argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=self.env, preexec_fn=pre, cwd=self.cwd)
        self.buf = b""

    def stderr_tail(self, k=3000):
        self.err.seek(0, 2)
        size = self.err.tell()
        self.err.seek(max(0, size - 200000))
        text = self.err.read().decode(errors="replace")
        for mark in ("==ERROR:", "runtime error:", "Assertion", "WARNING: "):
            i = text.find(mark)
            if i >= 0:
                return text[max(0, i - 300):i + k]
        return text[-k:]

    def ask(self, line, timeout=None):
        if self.p is None:
            self.start()
        timeout = timeout or self.timeout
        try:
            self.p.stdin.write((line + "\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        fd = self.p.stdout.fileno()
        end = time.monotonic() + timeout
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                self.kill()
                raise Hang("no answer within %gs" % timeout)
            chunk = os.read(fd, 65536)
            if not chunk:
                st = self.p.wait()
                err = self.stderr_tail()
                self.p = None
                raise Died(st, err)
            self.buf += chunk
        ans, self.buf = self.buf.split(b"\n", 1)
        return ans.decode(errors="replace")

    def kill(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None

    def close(self):
        """End of input; returns (status, stderr)."""
        if self.p is None:
            return 0, ""
        self.p.stdin.close()
        try:
            st = self.p.wait(timeout=120)
        except subprocess.TimeoutExpired:
            self.kill()
            return "hang", ""
        err = self.stderr_tail()
        self.p = None
        return st, err


def describe_status(st):
    if isinstance(st, int) and st < 0:
        try:
            return "killed by " + signal.Signals(-st).name
        except ValueError:
            pass
    return "exit status %s" % st


class Lib:
    """Typed front end to harness/driver.cc. call() -> ('R', float) | ('E', msg) | ('X'|'D'|'M', msg) | ('DIED', msg) | ('HANG', msg)"""

    def __init__(self, d, **kw):
        self.s = Server([os.path.join(d, "driver")], **kw)

    def call(self, fn, b, B, times=1, timeout=None):
        req = "%s%s %d %d %s %s" % (fn, "#%d" % times if times > 1 else "", len(b), len(B), hexs(b), hexs(B))
        for attempt in (1, 2):
            try:
                a = self.s.ask(req, timeout)
                break
            except Died as e:
                if e.status == 77:
                    raise HarnessError("driver protocol error")
                return "DIED", "%s; %s" % (describe_status(e.status), e.stderr[-2500:])
            except Hang as e:
                if attempt == 2:
                    return "HANG", "twice " + str(e)
                timeout = 2 * (timeout or self.s.timeout)
        if a.startswith("R "):
            return "R", float.fromhex(a[2:]) if "nan" not in a and "inf" not in a else float(a[2:])
        return a[0], a[2:]

    def close(self):
        return self.s.close()


class Oracle:
    def __init__(self):
        self.s = Server([build_oracle()], timeout=300)

    def __call__(self, mode, n, b, B):
        try:
            a = self.s.ask("%s %d %d %d %s %s" % (mode, n, len(b), len(B), hexs(b), hexs(B)))
        except (Died, Hang) as e:
            raise HarnessError("oracle failed: %s" % e)
        return np.longdouble(a[2:])


def enough():
    """No point in going on: many violations, or a minute since the first, or (quick) no time left for a verdict. The last leaves too few observations for 'held'."""
    return STOP.is_set() or (FIRST.value and time.time() - FIRST.value > 60) or (time.time() - STARTED > 660 and os.environ.get("VERIF_TIER") != "thorough")


def parallel(chk, items, make_worker, nproc=NPROC):
    """make_worker() -> (fn, cleanup). Runs fn(item) for every item on forked workers, each with its own make_worker().
    Items are handed out in order (so put the long ones first); what is observed on chk is merged, results are returned in order."""
    items = list(items)
    ctx = multiprocessing.get_context("fork")
    nxt = ctx.Value("l", 0)
    results, pipes = [None] * len(items), []
    for w in range(min(nproc, max(1, len(items)))):
        r, wr = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            out, code = [], 0
            try:
                chk.reset_observations()
                fn, cleanup = make_worker()
                try:
                    while not enough():
                        with nxt.get_lock():
                            i = nxt.value
                            nxt.value += 1
                        if i >= len(items):
                            break
                        out.append((i, fn(items[i])))
                finally:
                    cleanup()
                msg = ("ok", out, chk.observations())
            except BaseException as e:
                msg = ("error", "".join(traceback.format_exception(e)), None)
                STOP.set()
            try:
                with os.fdopen(wr, "wb") as f:
                    pickle.dump(msg, f)
            finally:
                os._exit(0)
        os.close(wr)
        pipes.append((pid, r))
    errors = []
    for pid, r in pipes:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            errors.append("a worker process was lost")
            STOP.set()
            continue
        kind, out, obs = pickle.loads(data)
        if kind == "error":
            errors.append(out)
        else:
            for i, v in out:
                results[i] = v
            chk.merge(obs)
    if errors and not chk.violations:
        raise HarnessError("worker failed:\n" + errors[0])
    return results


class Check:
    def __init__(self, pid, rule):
        self.pid, self.rule = pid, rule
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.assumptions = []
        self.reset_observations()
        self.known = []
        p = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line:
                    k = json.loads(line)
                    if k.get("status") == "known" and k.get("property") == pid:
                        self.known.append(k)

    def reset_observations(self):
        self.evaluations, self.distinct, self.samples, self.counts, self.maxima, self.violations, self.known_hit = 0, set(), [], {}, {}, [], {}

    def observations(self):
        return self.evaluations, self.distinct, self.samples, self.counts, self.maxima, self.violations, self.known_hit

    def merge(self, o):
        self.evaluations += o[0]
        self.distinct |= o[1]
        self.samples = (self.samples + o[2][:2])[:12]
        for k, v in o[3].items():
            self.count(k, v)
        for k, v in o[4].items():
            self.maximum(k, v)
        self.violations += o[5]
        self.known_hit.update(o[6])

    def rng(self, *salt):
        return np.random.default_rng([self.seed, int(self.pid[1:])] + [int(s) for s in salt])

    def observe(self, key=None, sample=None):
        """Count one judged execution; key identifies it when it is non-trivial (see rule)."""
        with self.lock:
            self.evaluations += 1
            if key is not None:
                h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
                if h not in self.distinct:
                    self.distinct.add(h)
                    if sample is not None and (len(self.samples) < 6 or (len(self.distinct) % 997 == 0 and len(self.samples) < 12)):
                        self.samples.append(sample() if callable(sample) else sample)

    def count(self, name, k=1):
        with self.lock:
            self.counts[name] = self.counts.get(name, 0) + k

    def maximum(self, name, v):
        with self.lock:
            self.maxima[name] = max(self.maxima.get(name, v), v)

    def violation(self, key, detail, replay=None):
        """key: stable identification of what fails (matched against known_findings.jsonl)."""
        with self.lock:
            for k in self.known:
                if k["key"] == key:
                    self.known_hit[key] = k
                    return
            os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
            name = "%s-%s.json" % (self.pid, hashlib.blake2b((key + repr(detail)).encode(), digest_size=6).hexdigest())
            path = os.path.join(OUT, "replays", name)
            if len(self.violations) < 20:
                tmp = "%s.%d" % (path, os.getpid())
                with open(tmp, "w") as f:
                    json.dump({"property": self.pid, "key": key, "detail": detail, "seed": self.seed, "tier": self.tier, "replay": replay}, f, indent=1, default=str)
                os.replace(tmp, path)
            self.violations.append((key, detail, path))
            if not FIRST.value:
                FIRST.value = time.time()
            if len(self.violations) >= 40 or "hang" in key:
                STOP.set()

    def finish(self, min_eval, min_distinct):
        self.extra = dict(self.counts, **self.maxima)
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct), "rule": self.rule, "samples": self.samples or ["(none)"]}
        cov.update({k: (float(v) if isinstance(v, (float, np.floating)) else v) for k, v in self.extra.items()})
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        with open(os.path.join(OUT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for key, k in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        STOP.clear()
        if self.violations:
            seen = set()
            for key, detail, path in self.violations:
                if key in seen or len(seen) >= 5:
                    continue
                seen.add(key)
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("  %s: %s" % (key, str(detail)[:1500]))
            print("%s: %d violating observations" % (self.pid, len(self.violations)))
            return 1
        print("%s: held on %d evaluations, %d distinct non-trivial (%s) in %.1fs; %s"
              % (self.pid, self.evaluations, len(self.distinct), self.tier, time.time() - self.t0,
                 ", ".join("%s=%s" % (k, "%.3g" % v if isinstance(v, float) else v) for k, v in sorted(self.extra.items()))[:1500]))
        if self.evaluations < min_eval or len(self.distinct) < min_distinct:
            print("INCONCLUSIVE property=%s observed too little (%d/%d evaluations, %d/%d distinct)"
                  % (self.pid, self.evaluations, min_eval, len(self.distinct), min_distinct))
            return 2
        return 0
