"""./check <ID>: decide one property on /repo's current source.

1. the deductive verifier (rkv.verify) regenerates and discharges every obligation of the property;
2. the concrete search replays the property's oracle on the real code (counterexample search for failed
   obligations, and the labelled bounded stand-in for what the verifier could not reach);
3. known findings are reproduced and reported.
Exit 0 / 1 as in MANIFEST.json; evidence is rewritten.
"""
import json
import os
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
VPY = "python3-vt"


def env():
    e = dict(os.environ)
    e.update(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    e["PYTHONPATH"] = VERIF
    return e


def search_start(pid, seed, tier, budget):
    f = tempfile.TemporaryFile("w+")
    p = subprocess.Popen([PY, os.path.join(VERIF, "concrete", "run.py"), "search", pid, str(seed), tier, str(budget)],
                         stdout=f, stderr=subprocess.STDOUT, env=env(), cwd=VERIF)
    return p, f


def search_end(pf, timeout):
    p, f = pf
    try:
        p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return {"n": 0, "fails": [], "samples": [], "kinds": {}, "wall": timeout, "error": "search timed out"}
    f.seek(0)
    txt = f.read()
    for line in reversed(txt.splitlines()):
        if line.startswith("RESULT "):
            return json.loads(line[7:])
    return {"n": 0, "fails": [], "samples": [], "kinds": {}, "wall": 0, "error": "search crashed: " + txt[-1500:]}


def known(pid):
    d = json.load(open(os.path.join(VERIF, "known_findings.json")))
    ks = [k for k in d["known"] if k["property"] == pid]
    if not ks:
        return []
    r = subprocess.run([PY, os.path.join(VERIF, "concrete", "run.py"), "known"] + [k["id"] for k in ks], capture_output=True, text=True,
                       env=env(), cwd=VERIF, timeout=120)
    for line in r.stdout.splitlines():
        if line.startswith("RESULT "):
            live = json.loads(line[7:])
            return [(k, live.get(k["id"], True)) for k in ks]
    return [(k, True) for k in ks]


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    quick = tier != "thorough"
    vlimit = 360 if quick else 1500
    out = os.path.join(VERIF, "out")
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    pf = search_start(pid, seed, "quick" if quick else "thorough", 60 if quick else 400)
    vf = os.path.join(out, f"{pid}.verify.json")
    if os.path.exists(vf):
        os.remove(vf)
    v = None
    verr = ""
    try:
        r = subprocess.run([VPY, "-m", "rkv.verify", pid, tier, vf], cwd=VERIF, env=env(), timeout=vlimit, capture_output=True, text=True)
        verr = (r.stdout + r.stderr)[-2000:]
    except subprocess.TimeoutExpired:
        verr = f"verifier exceeded {vlimit} s"
    if os.path.exists(vf):
        try:
            v = json.load(open(vf))
        except ValueError:
            v = None
    if v is None:
        v = {"obligations": 0, "discharged": 0, "obl": {}, "functions": {}, "unsupported": [[pid, "verifier did not finish: " + verr]],
             "assumptions": [], "bounded": [], "backend": {}, "solver_time": 0, "paths": 0, "notes": [], "refuted": [], "unknown": [],
             "crash": None, "wall": 0}
    if v["crash"]:
        v["unsupported"].append([pid, "verifier crashed: " + v["crash"][-800:]])
    s = search_end(pf, 200 if quick else 900)
    searches = [s]
    fails = [f for f in s["fails"] if not f["what"].startswith("[harness]")]
    if v["refuted"] and not fails:
        # look harder for a failing input of the failed obligation
        runs = [search_start(pid, seed * 1000 + 17 * i + 1, "thorough", 100 if quick else 300) for i in range(4)]
        for p in runs:
            e = search_end(p, 160 if quick else 500)
            searches.append(e)
            fails += [f for f in e["fails"] if not f["what"].startswith("[harness]")]
    # ---- verdict
    violations = 0
    if fails or v["refuted"]:
        violations = 1
        path = os.path.join(out, f"{pid}.replay.json")
        d = {"property": pid, "failed_obligations": {n: v["obl"][n] for n in v["refuted"]},
             "reproduce": f"{PY} {VERIF}/concrete/run.py replay {path}",
             "verifier": f"{VPY} -m rkv.verify {pid} {tier} OUT.json"}
        if fails:
            fails.sort(key=lambda f: len(json.dumps(f["case"], default=str)))
            d["case"] = fails[0]["case"]
            d["what"] = fails[0]["what"]
            d["others"] = fails[1:4]
        json.dump(d, open(path, "w"), indent=1, default=str)
        for n in v["refuted"]:
            o = v["obl"][n]
            print(f"failed obligation {n} ({o['fn']}): {(o['detail'] or [''])[0][:600]}")
        if fails:
            print(f"failing input: {fails[0]['what'][:800]}")
            print(f"VIOLATION property={pid} replay={path}")
        else:
            print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
    kn = []
    for k, live in known(pid):
        kn.append({"id": k["id"], "reproduced": live})
        if live:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    # ---- evidence
    bounded = []
    for u in v["unsupported"]:
        bounded.append(f"{u[0]}: outside the verifier's reach here ({str(u[1])[:300]}); bounded stand-in: {s['n']} concrete cases")
    for n in v["unknown"]:
        bounded.append(f"{n}: undischarged ({(v['obl'][n]['detail'] or [''])[0][:300]}); bounded stand-in: {s['n']} concrete cases")
    n, disc = v["obligations"], v["discharged"]
    cov = {
        "obligations": n, "discharged": disc,
        "checker_cmd": f"python3-vt -m rkv.verify {pid} {tier} OUT.json",
        "trusted_base": ["rkv: mechanical extraction (rkv/extract.py), symbolic execution and contract models of numpy/scipy/logging (rkv/*.py)",
                         "CPython evaluating the extracted code", "z3 4.x (arithmetic obligations)",
                         "exact normal forms over Q(i) (scheme obligations)"],
        "functions_under_contract": v["functions"], "discharged_by_backend": v["backend"], "solver_time_s": round(v["solver_time"], 3),
        "paths_explored": v["paths"], "verifier_wall_s": round(v["wall"], 2),
        "obligation_names": sorted(v["obl"]),
        "failed_obligations": v["refuted"], "undischarged_obligations": v["unknown"],
        "bounded_stand_ins": bounded + v["bounded"],
        "concrete_replays": {"evaluations": sum(x["n"] for x in searches), "kinds": s["kinds"], "samples": s["samples"][:2],
                             "failures": [f["what"] for x in searches for f in x["fails"]][:8], "error": s.get("error")},
        "known_findings": kn, "notes": v["notes"],
    }
    if n == 0:
        cov["explanation"] = ("no obligation could be generated from the current source; the outcome rests on the bounded concrete "
                              f"stand-in alone ({s['n']} cases) and is not a proof")
    ev = {"property": pid, "tier": "quick" if quick else "thorough", "seed": seed, "level": level_of(pid) if n else "other",
          "coverage": cov, "assumptions": v["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": violations}
    if ev["level"] == "other" and "explanation" not in cov:
        cov["explanation"] = "see bounded_stand_ins and functions_under_contract"
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1, default=str)
    print(f"{pid}: {disc}/{n} obligations discharged, {len(bounded)} bounded stand-ins, {cov['concrete_replays']['evaluations']} concrete cases, "
          f"{time.time() - t0:.1f} s")
    sys.exit(1 if violations else 0)


def level_of(pid):
    try:
        m = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
        for c in m["checks"]:
            if c["property"] == pid:
                return c["level"]
    except (OSError, ValueError, KeyError):
        pass
    return "proof"


if __name__ == "__main__":
    main()
