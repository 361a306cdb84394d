import importlib
import os
import pkgutil
import sys

from mc import core
import mc.checks


def find(prop):
    for m in pkgutil.iter_modules(mc.checks.__path__):
        if m.name.lower().startswith(prop.lower() + "_"):
            return "mc.checks." + m.name
    raise SystemExit(f"no check for {prop}")


if __name__ == "__main__":
    args = sys.argv[1:]
    replay = None
    if "--replay" in args:
        i = args.index("--replay")
        replay = os.path.abspath(args[i + 1])
        del args[i : i + 2]
    rc = core.run_check(find(args[0]), replay)
    sys.stdout.flush()
    os._exit(rc)
