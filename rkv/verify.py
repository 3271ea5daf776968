"""python3-vt -m rkv.verify <ID> <tier> <out.json>: run the deductive verifier for one property on /repo's current source."""
import importlib
import json
import os
import sys
import time
import traceback
from . import core

AREAS = {
    "C01": "evolve", "C02": "evolve", "C03": "evolve",
    "C04": "stepctl", "C05": "stepctl",
    "C06": "history", "C07": "history", "C08": "history", "C15": "history",
    "C09": "schemes", "C10": "schemes", "C11": "schemes", "C12": "schemes", "C13": "schemes",
    "C14": "config", "C16": "logs", "C24": "construct",
    "C17": "spectral", "C18": "spectral", "C19": "spectral", "C20": "spectral", "C21": "spectral", "C22": "spectral", "C23": "spectral",
}


def run(pid, tier):
    rep = core.Report()
    try:
        m = importlib.import_module("rkv." + AREAS[pid])
    except ModuleNotFoundError as e:
        if e.name != "rkv." + AREAS[pid]:
            raise
        rep.unsupported.append((pid, "no contracts written"))
        return rep
    m.verify(pid, tier, rep)
    return rep


def main():
    pid, tier, out = sys.argv[1:4]
    sys.setrecursionlimit(20000)
    t = time.time()
    try:
        rep = run(pid, tier)
        crash = None
    except BaseException:  # noqa: BLE001 - reported as undecided
        rep, crash = core.Report(), traceback.format_exc()
    n, d = rep.totals()
    json.dump({"obligations": n, "discharged": d, "obl": rep.obl, "functions": {f: sorted(s) for f, s in rep.functions.items()},
               "unsupported": rep.unsupported, "assumptions": rep.assumptions, "bounded": rep.bounded, "backend": rep.backend,
               "solver_time": rep.solver_time, "paths": rep.paths, "notes": rep.notes, "refuted": rep.refuted(),
               "unknown": rep.unknown(), "crash": crash, "wall": time.time() - t}, open(out, "w"), indent=1, default=str)
    if os.environ.get("RKV_VERBOSE"):
        print(f"{pid}: {d}/{n} obligations, {rep.paths} paths, {time.time() - t:.1f} s")
        for nme, o in rep.obl.items():
            mark = "OK " if not o["refuted"] and not o["unknown"] else "BAD" if o["refuted"] else "?? "
            if mark != "OK " or os.environ["RKV_VERBOSE"] > "1":
                print("  ", mark, nme, o["proved"], o["refuted"], o["unknown"], "|", str(o["detail"][:1])[:int(os.environ.get("RKV_W", "300"))])
        for u in rep.unsupported:
            print("   unsupported", str(u)[:600])
        if crash:
            print(crash)


if __name__ == "__main__":
    main()
