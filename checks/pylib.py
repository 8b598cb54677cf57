"""Client of harness/pyserver.py: the Python module in a child interpreter."""
import json, os
import common


class PyLib:
    FN = {"2.ks": ("ecdf2", "False"), "2.fft": ("ecdf2", "True"), "b.new": ("ecdf1_new_b", None), "B.new": ("ecdf1_new_B", None),
          "b.mns": ("ecdf1_mns2016_b", None), "B.mns": ("ecdf1_mns2016_B", None)}

    def __init__(self, path, env=None, **kw):
        e = {"PYTHONPATH": path, "PYTHONNOUSERSITE": "1", "PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_NUM_THREADS": "1"}
        e.update(env or {})
        self.s = common.Server(["/usr/bin/python3", "-W", "ignore", os.path.join(common.HARNESS, "pyserver.py")], env=e, as_limit=12 << 30, **kw)

    def ask(self, req, timeout=None):
        """dict answer; {'died': ...} or {'hang': ...} when there was none."""
        for attempt in (1, 2):
            try:
                a = json.loads(self.s.ask(json.dumps(req), timeout))
                break
            except common.Died as e:
                if e.status in (77, 1) and "Error" in e.stderr and "pyserver.py" in e.stderr:
                    raise common.HarnessError("pyserver: " + e.stderr)
                return {"died": "%s; %s" % (common.describe_status(e.status), e.stderr[-2500:])}
            except common.Hang as e:
                if attempt == 2:
                    return {"hang": "twice " + str(e)}
                timeout = 2 * (timeout or self.s.timeout)
        if "harness" in a:
            raise common.HarnessError("pyserver could not build the arguments: %s of %s" % (a["harness"], req))
        return a

    def call(self, fn, b, B, how="list", rep=1):
        name, flag = self.FN[fn]
        spec = lambda v: {"t": how, "v": [common.hexf(x) for x in v]}
        args = [spec(b), spec(B), {"lit": flag}] if fn.startswith("2") else [spec(b if fn[0] == "b" else B)]
        return self.ask({"fn": name, "args": args, "rep": rep})

    def close(self):
        return self.s.close()
