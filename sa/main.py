"""python3 /verif/sa/main.py PID [--tier T]: run one property's static checks against the current /repo tree."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)


def main():
    import threading
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    rc = [2]

    def go():
        try:
            from sa import core
            m = importlib.import_module("sa.rules." + pid.lower())
            core.run(m.ID, m.TITLE, m.EXPL, m.check, getattr(m, "ASSUME", ()))
        except SystemExit as e:
            rc[0] = e.code or 0

    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])


main()
