"""Independent verification jobs on several cores."""
import multiprocessing as mp
import os
import sys
import traceback
from . import core


def _call(a):
    fn, args = a
    sys.setrecursionlimit(20000)
    try:
        return fn(*args)
    except core.Unsupported as e:
        r = core.Report()
        r.unsupported.append((f"{fn.__name__}{args}", str(e)))
        return r
    except BaseException:  # noqa: BLE001 - an engine failure is undecided, never a verdict
        r = core.Report()
        r.unsupported.append((f"{fn.__name__}{args}", "engine: " + traceback.format_exc()[-900:]))
        return r


def run(fn, argslist, workers=None):
    n = workers or int(os.environ.get("RKV_JOBS", "0")) or min(8, os.cpu_count() or 1)
    if n <= 1 or len(argslist) <= 1:
        return [_call((fn, a)) for a in argslist]
    with mp.get_context("fork").Pool(min(n, len(argslist))) as p:
        return p.map(_call, [(fn, a) for a in argslist], chunksize=1)
