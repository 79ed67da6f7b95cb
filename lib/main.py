"""entry point: main.py <property>"""
import importlib, os, sys, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "checks"))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "spec"))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

import report  # noqa: E402


def main():
    pid = sys.argv[1]
    mod = importlib.import_module(pid.lower())
    chk = report.Check(pid, mod.TECHNIQUE, getattr(mod, "LEVEL", "other"))
    chk.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    prog = report.load()
    try:
        mod.run(prog, chk)
    except Exception as e:      # a construct the analysis does not handle: no verdict on the rest, no alarm
        traceback.print_exc()
        chk.undecided("analysis", "rest of the check", "not handled: %s: %s" % (type(e).__name__, str(e)[:200]))
    sys.exit(chk.finish())


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("the check could not decide (tool error)")
        sys.exit(2)
