"""Running the two command-line programs and reading what they delivered."""
import os, re, resource, signal, subprocess, tempfile, threading
import common

NUMBER = re.compile(rb"^[ \t]*[-+]?(\d+(\.\d*)?|\.\d+)([eE][-+]?\d+)?[ \t]*$")
NANINF = re.compile(rb"^[ \t]*[-+]?(nan|inf|infinity)[ \t]*$", re.I)
ALGOS = ("ecdf2-ks2001", "ecdf2-mn2017", "ecdf1-mns2016", "ecdf1-new")


class Run:
    """status (negative: signal), out, err, hang"""

    def __init__(self, status, out, err, hang, argv):
        self.status, self.out, self.err, self.hang, self.argv = status, out, err, hang, argv

    @property
    def value(self):
        """The delivered probability, or None if the run did not end in the success form."""
        if self.hang or self.status != 0:
            return None
        lines = self.out.split(b"\n")
        if len(lines) != 2 or lines[1] != b"" or not NUMBER.match(lines[0]):
            return None
        return float(lines[0])

    @property
    def rejected(self):
        """Error route: nonzero ordinary exit status, an explanation, no line that is just a number."""
        return (not self.hang and self.status > 0 and len((self.out + self.err).strip()) > 0
                and not any(NUMBER.match(l) or NANINF.match(l) for l in (self.out + b"\n" + self.err).split(b"\n") if l.strip()))

    def brief(self):
        return {"argv": [str(a)[:200] for a in self.argv[1:]], "status": "hang" if self.hang else common.describe_status(self.status),
                "stdout_end": self.out[-300:].decode(errors="replace"), "stderr_end": self.err[-1500:].decode(errors="replace")}


def run(argv, env=None, timeout=60, stdin=None, stdout=None, cwd=None, preexec=None, retry=True, pass_fds=(), bare=False):
    """stdin: bytes to feed, or None for /dev/null. stdout: a file object to use instead of a pipe (nothing is captured then)."""
    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if preexec:
            preexec()
    e = {} if bare else dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(argv, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=stdout if stdout is not None else subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, preexec_fn=pre, pass_fds=pass_fds)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        return Run(p.returncode, out or b"", err or b"", False, argv)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        if retry:       # a wall-clock watchdog on a loaded machine proves nothing: once more, with more time
            return run(argv, env, 2 * timeout, stdin, stdout, cwd, preexec, False, pass_fds, bare)
        return Run(-9, out or b"", err or b"", True, argv)


_counter = [0]
_lock = threading.Lock()


def write(content, name=None):
    """A fresh file with this content (str or bytes)."""
    with _lock:
        _counter[0] += 1
        k = _counter[0]
    d = os.path.join(common.scratch(), "files")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name or "f%d-%d.txt" % (os.getpid(), k))
    with open(p, "wb") as f:
        f.write(content if isinstance(content, bytes) else content.encode())
    return p


def fmt(v):
    return ", ".join(repr(float(x)) for x in v)


def bounds(b, B):
    return fmt(b) + "\n" + fmt(B) + "\n"
