#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current source."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def main():
    try:
        import numpy        # noqa
    except ImportError:
        alt = "/opt/veriftools/pyvenv/bin/python3"
        if os.path.exists(alt) and not os.environ.get("VP_REEXEC"):
            os.environ["VP_REEXEC"] = "1"
            os.execv(alt, [alt] + sys.argv)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = [3]

    def go():
        rc[0] = run(sys.argv[1])
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.exit(rc[0])


def run(pid):
    from vlib import report
    mod = importlib.import_module("vlib.props." + pid.lower())
    r = report.Run(pid)
    mod.run(r)
    return report.finish(r, mod.EXPLANATION, mod.FLOOR, mod.TRUSTED)


if __name__ == "__main__":
    main()
