"""python run.py <property id> [--tier quick|thorough] [--replay FILE]: run one check (see DESIGN.md)."""
import atexit
import importlib
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))

MODULES = ["uset", "tries_check", "props", "dicts", "utils", "charnames", "layoutnorm", "ucdxml", "icupackage", "builders",
           "purity", "gendata", "settings", "faults"]


def find(pid):
    for m in MODULES:
        if not os.path.exists(os.path.join(HERE, "checks", m + ".py")):
            continue
        for c in vars(importlib.import_module(m)).values():
            if isinstance(c, type) and getattr(c, "id", "") == pid:
                return c
    sys.exit(f"no check for {pid}")


if __name__ == "__main__":
    import vh
    cls = find(sys.argv[1])
    code = vh.main(cls, sys.argv[2:])
    sys.stdout.flush()
    sys.stderr.flush()
    atexit._run_exitfuncs()
    os._exit(code)      # not sys.exit: the pool of workers may have a thread that never ends
