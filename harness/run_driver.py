"""run_driver.py DRIVER OUT [ARGS]: runs drv_DRIVER.main(trace, args).

An exception that comes out of the code under test is an event of the trace
("Exc"), which no specification allows; any other exception is a failure of
the harness.
"""

import importlib
import os
import re
import resource
import shutil
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import env


def from_repo(tb):
    """Raised by the code, or by what it handed to the simulated processor."""
    root = os.path.realpath(env.REPO) + os.sep
    names = [os.path.realpath(f.filename) for f in traceback.extract_tb(tb)]
    return any(n.startswith(root) or os.sep + "py65" + os.sep in n
               for n in names)


def of_repo(e):
    """An object of the code lacks what its users have."""
    root = os.path.realpath(env.REPO) + os.sep
    m = re.match(r"'(\w+)' object has no attribute", str(e))
    return isinstance(e, AttributeError) and m is not None and any(
        hasattr(mod, m.group(1)) for mod in list(sys.modules.values())
        if os.path.realpath(getattr(mod, "__file__", None) or "/")
        .startswith(root))


def main():
    env.die_with_parent()
    # runaway code is to fail, not to take the machine with it
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    t = env.Trace(sys.argv[2])
    try:
        drv = importlib.import_module("drv_" + sys.argv[1])
        drv.main(t, sys.argv[3:])
    except BaseException as e:
        if from_repo(e.__traceback__) or of_repo(e) or \
                isinstance(e, (SyntaxError,)):
            t.emit("Exc", what=env.exc_name(e), where="".join(
                traceback.format_tb(e.__traceback__)[-3:])[-900:])
        else:
            traceback.print_exc()
            t.close()
            os._exit(3)
    t.close()
    sys.stdout.flush()
    shutil.rmtree(env.SCRATCH, True)
    os._exit(0)


main()
