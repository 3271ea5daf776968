"""run.py search <ID> <seed> <tier> [budget_s]  -> JSON on stdout
   run.py replay <file>                          -> reruns one recorded failing input (exit 1 if it still fails)"""
import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402
import numpy as np  # noqa: E402

CASE_LIMIT = 40
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))

MODS = ["p_control", "p_hist", "p_scheme", "p_config", "p_spectral"]


def oracle(pid):
    for m in MODS:
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        if pid in mod.ORACLES:
            return mod.ORACLES[pid]
    raise SystemExit("no oracle for " + pid)


class Hang(BaseException):
    pass


def alarm(*_):
    raise Hang


def run_one(run, case):
    """one case; a case that does not end (they take well under a second) is a failure of the code under test"""
    try:
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(CASE_LIMIT)
        try:
            return run(case)
        finally:
            signal.alarm(0)
    except Hang:
        return f"does not end within {CASE_LIMIT} s"
    except Exception as e:  # noqa: BLE001 - an unexpected exception of the code under test is a failure
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any("/rkstiff/" in f.filename for f in tb)
        last = [f for f in tb if "/rkstiff/" in f.filename][-1:] or tb[-1:]
        where = f"{os.path.basename(last[0].filename)}:{last[0].lineno}"
        return ("" if inrepo else "[harness] ") + f"unexpected {type(e).__name__}: {e} at {where}"


def main():
    if sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        if "case" not in d:
            print(json.dumps(d, indent=1)[:6000])
            sys.exit(1)
        r = run_one(oracle(d["property"])[1], d["case"])
        print("FAILS: " + r if r else "passes")
        sys.exit(1 if r else 0)
    if sys.argv[1] == "isochild":
        import p_hist
        print("RESULT " + json.dumps(p_hist.iso_child(json.loads(sys.argv[2]))))
        return
    if sys.argv[1] == "known":
        import p_scheme
        print("RESULT " + json.dumps({k: bool(f()) for k, f in p_scheme.KNOWN.items() if k in sys.argv[2:]}))
        return
    pid, seed, tier = sys.argv[2], int(sys.argv[3]), sys.argv[4]
    budget = float(sys.argv[5]) if len(sys.argv) > 5 else 60.0
    gen, run = oracle(pid)
    rng = np.random.default_rng([seed, int(pid[1:])])
    t = time.time()
    n, fails, samples, kinds = 0, [], [], {}
    for case in gen(rng, tier):
        r = run_one(run, case)
        n += 1
        k = "/".join(str(case.get(x)) for x in ("kind", "name", "rep", "mode", "fn") if x in case)
        kinds[k] = kinds.get(k, 0) + 1
        if len(samples) < 3:
            samples.append(case)
        if r:
            fails.append({"case": case, "what": r})
            if len(fails) >= 8:
                break
        if time.time() - t > budget:
            break
    sys.stdout.write("\nRESULT " + json.dumps({"n": n, "fails": fails, "samples": samples, "kinds": kinds,
                                              "wall": time.time() - t}) + "\n")


main()
