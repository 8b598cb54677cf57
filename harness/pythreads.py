"""Several Python threads calling the module at once.  argv: pool.json seconds threads -> one JSON line.
pool: [{"fn": name, "args": [[hex..]|bool ...], "want": hex or null (null: must raise RuntimeError), "tol": t}]"""
import sys, os, json, threading, time, random, struct
chan = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
import crossprob
sys.setswitchinterval(1e-6)
pool = json.load(open(sys.argv[1]))
seconds, T = float(sys.argv[2]), int(sys.argv[3])
for p in pool:
    p["a"] = [a if isinstance(a, bool) else [struct.unpack("<d", struct.pack("<Q", int(x[1:], 16)))[0] if x[0] == "x" else float.fromhex(x) if "x" in x else float(x) for x in a] for a in p["args"]]
    p["orig"] = [a if isinstance(a, bool) else list(a) for a in p["a"]]
bad, calls, overlaps, trans = [], [0] * T, [0] * T, set()
current = [None] * T
start = threading.Barrier(T)
stop = time.time() + seconds


def work(t):
    r = random.Random(1000 * int(sys.argv[4]) + t)
    start.wait()
    last = None
    while time.time() < stop and len(bad) < 5:
        i = r.randrange(len(pool))
        p = pool[i]
        current[t] = i
        try:
            x = getattr(crossprob, p["fn"])(*p["a"])
            ok = p["want"] is not None and abs(x - float.fromhex(p["want"])) <= p["tol"]
            got = repr(x)
        except RuntimeError as e:
            ok = p["want"] is None
            got = "RuntimeError: %s" % e
        except BaseException as e:
            ok, got = False, repr(e)
        calls[t] += 1
        for u in range(T):
            if u != t and current[u] is not None:
                trans.add((i, current[u]))
        if not ok:
            bad.append({"thread": t, "call": i, "previous": last, "got": got, "want": p["want"]})
        last = i


ts = [threading.Thread(target=work, args=(t,)) for t in range(T)]
[t.start() for t in ts]
[t.join() for t in ts]
def same(x, y):
    return x == y or (x != x and y != y)
mut = [i for i, p in enumerate(pool) if any(not isinstance(a, bool) and (len(a) != len(o) or not all(map(same, a, o))) for a, o in zip(p["a"], p["orig"]))]
print(json.dumps({"bad": bad[:5], "calls": calls, "pairs": len(trans), "mutated": mut}), file=chan, flush=True)
