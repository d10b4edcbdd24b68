import importlib
import os
import shutil
import sys
import threading
import traceback

from . import build
from .ctx import Ctx, Lost, finish
from .mir import Crate


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    keep = os.environ.get('VP_DUMP')
    p = keep or build.dump()
    try:
        crate = Crate(p)
    finally:
        if not keep:
            shutil.rmtree(os.path.dirname(p), ignore_errors=True)
    from .rules import REGISTRY
    mod, fn, rep = REGISTRY[pid]
    m = importlib.import_module('vp.rules.' + mod)
    c = Ctx(pid, tier, crate)
    try:
        getattr(m, fn)(c)
    except Lost as e:
        c.unknown('anchor', pid, str(e))
    except Exception as e:
        # the analysis itself failed: said so, never counted as a finding or as a proof
        traceback.print_exc()
        c.unknown('analysis', pid, 'analysis failed: %r' % e)
    return finish(c, rep)


def guarded():
    global rc
    try:
        rc = main()
    except SystemExit as e:
        rc = e.code
    except BaseException:
        traceback.print_exc()
        rc = 2


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        # the same run every time
        os.environ['PYTHONHASHSEED'] = '0'
        sys.stdout.flush()
        os.execv(sys.executable, [sys.executable, '-B', '-m', 'vp'] + sys.argv[1:])
    rc = 2
    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=guarded)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(rc)
