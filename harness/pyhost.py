"""Importing and calling the Python module while the state of the interpreter and of its process is compared. argv[1]: hoststate.so
First line out: {"import": [differences], "items": n}. Then one JSON request per line {"fn", "args", "mode"} -> {"diff": [...], "r"|"exc"}."""
import sys, os, json, ctypes, gc, signal, threading, random, locale, decimal, warnings, builtins, time, atexit
chan = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
import numpy as np
HS = ctypes.CDLL(sys.argv[1])
HS.hs_snapshot.restype = ctypes.c_long
HS.hs_init()
buf = ctypes.create_string_buffer(1 << 18)
FE = ctypes.CDLL("libm.so.6")
ROUND = [0, 0x800, 0x400, 0xc00]


def state():
    n = HS.hs_snapshot(buf, ctypes.c_long(len(buf)))
    out = set(buf.raw[:n].decode(errors="replace").split("\n"))
    py = {"sys.path": sys.path, "environ": sorted(os.environ.items()), "gc": (gc.isenabled(), gc.get_threshold()), "random": hash(random.getstate()), "np.random": hash(np.random.get_state()[1].tobytes()),
          "handlers": [str(signal.getsignal(s)) for s in range(1, 65)], "recursion": sys.getrecursionlimit(), "hooks": [id(sys.excepthook), id(sys.displayhook), id(sys.stdout), id(sys.stderr), id(sys.stdin), id(sys.__stdout__)],
          "warnings": repr(warnings.filters), "threads": threading.active_count(), "builtins": sorted(dir(builtins)), "locale": locale.setlocale(locale.LC_ALL), "decimal": repr(decimal.getcontext()), "switch": sys.getswitchinterval(),
          "trace": (sys.gettrace(), sys.getprofile()), "np.err": sorted(np.geterr().items()), "np.print": repr(sorted(np.get_printoptions().items(), key=str)), "cwd": os.getcwd(), "path_hooks": len(sys.path_hooks), "meta_path": len(sys.meta_path),
          "float": [5e-324 * 1.0, 1e-308 / 1024, 0.1 + 0.2, 1 / 3, float("1e400") > 1, float("nan") == 1], "int_digits": sys.get_int_max_str_digits(), "argv": sys.argv, "encoding": sys.getdefaultencoding(), "flags": repr(sys.flags), "bytecode": sys.dont_write_bytecode}
    return out | {"python-%s=%s" % (k, v) for k, v in py.items()}


def diff(a, b):
    return sorted(["-" + x[:300] for x in a - b] + ["+" + x[:300] for x in b - a])


signal.signal(signal.SIGINT, lambda *a: None)
signal.signal(signal.SIGTERM, signal.SIG_IGN)
signal.set_wakeup_fd(-1)
locale.setlocale(locale.LC_ALL, "C.UTF-8")
np.seterr(divide="ignore", over="warn")
np.set_printoptions(precision=5)
random.seed(5)
np.random.seed(6)
decimal.getcontext().prec = 33
sys.setrecursionlimit(2500)
sys.setswitchinterval(0.01)
gc.set_threshold(600, 9, 9)
warnings.simplefilter("error", BytesWarning)
os.environ["HOST"] = "1"
state()
trap = HS.hs_trap()
before = state()
import crossprob
after = state()
print(json.dumps({"import": diff(before, after), "items": len(before), "trap": trap}), file=chan, flush=True)
for line in sys.stdin:
    if not line.strip():
        continue
    q = json.loads(line)
    args = [eval(a, {"nan": float("nan"), "np": np}) for a in q["args"]]
    f = getattr(crossprob, q["fn"])
    state()
    FE.fesetround(ROUND[q.get("mode", 0)])
    before = state()
    out = {}
    try:
        r = f(*args)
        out["r"] = r.hex() if isinstance(r, float) else repr(r)
    except Exception as e:
        out["exc"] = type(e).__name__
    after = state()
    FE.fesetround(0)
    out["diff"] = diff(before, after)
    print(json.dumps(out), file=chan, flush=True)
