#!/usr/bin/env python3-vt
"""run.py C01 [C02 ...]   run checks;  run.py --replay FILE   show and re-execute a recorded violation."""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    if sys.argv[1] == "--replay":
        import replay
        return replay.main(sys.argv[2])
    rc = 0
    for pid in sys.argv[1:]:
        try:
            r = importlib.import_module(pid.lower()).main()
        except SystemExit:
            raise
        except BaseException:
            traceback.print_exc(file=sys.stdout)
            print("ERROR property=%s the harness failed, no verdict" % pid)
            r = 2
        rc = max(rc, r)
    sys.stdout.flush()
    return rc


sys.exit(main())
