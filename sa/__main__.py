import importlib
import os
import sys


def run():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    from . import core
    m = importlib.import_module("sa.props." + REG[pid][0])
    return core.main(pid, getattr(m, REG[pid][1]), tier)


from .props import REG

if __name__ == "__main__":
    import threading
    rc = []
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=lambda: rc.append(run()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
