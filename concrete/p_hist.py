"""Concrete oracles for C06 (history independence), C07 (fresh data), C08 (frame), C15 (isolation)."""
import numpy as np
from common import (SPECS, AS, ETD, Problem, make, is_as, sconfig, econfig, seeds, same)


def build(case, cfgover=None):
    p = Problem(case["seed"], case["rep"], n=case.get("n", 3), scale=case.get("scale", 0.4),
                kind=case.get("pk", "cplx"), nlscale=case.get("nls", 0.6))
    cfg = sconfig(**case["cfg"]) if case.get("cfg") is not None and is_as(case["name"]) else None
    ec = econfig(**case["ecfg"]) if case.get("ecfg") is not None else None
    return p, cfg, ec


class Boom(Exception):
    pass


def bombed(p, holder):
    def nl(u):
        if holder["arm"] is not None:
            holder["arm"] -= 1
            if holder["arm"] < 0:
                holder["arm"] = None
                raise Boom()
        return p.nl(u)
    return nl


def base_case(g, s, i):
    name, rep = SPECS[i % len(SPECS)]
    return dict(name=name, rep=rep, seed=s, pk=str(g.choice(["cplx", "real"])) if rep != "eig" else "cplx",
                cfg=dict(epsilon=float(10.0 ** g.uniform(-7, -2)), incr_f=float(g.uniform(1.02, 1.6))) if name in AS else None,
                ecfg=None if g.random() < 0.5 else dict(modecutoff=float(g.choice([0.01, 0.2, 1.0])), contour_points=int(g.choice([32, 48])),
                                                       contour_radius=float(g.choice([1.0, 1.5]))))


def gen_C06(rng, tier):
    k = 640 if tier == "quick" else 4000
    for i, s in enumerate(seeds(rng, k)):
        g = np.random.default_rng(s)
        c = base_case(g, s, i)
        ops = []
        for _ in range(int(g.integers(1, 5))):
            ops.append(str(g.choice(["step", "step_same", "evolve", "reset", "boom_step", "boom_evolve", "hugestep",
                                     "nanstep", "evolve_bad"])))
        c.update(kind="hist", ops=ops, h=float(g.uniform(0.02, 0.2)), final=str(g.choice(["evolve", "reset_step"])),
                 hsame=bool(g.integers(2)))
        yield c


def _try(f):
    try:
        return ("ok", f())
    except (RuntimeError, ValueError, Boom, np.linalg.LinAlgError, AssertionError) as e:
        return ("exc", type(e).__name__)


def do_ops(case, solver, p, g, holder):
    u = p.u0.astype(complex)
    h = case["h"]
    asv = is_as(case["name"])
    for op in case["ops"]:
        hh = h if case["hsame"] else float(h * g.uniform(0.3, 2))
        v = u if case["hsame"] else u * 0.7 + 0.1

        def stp(x, y):
            r = solver.step(x, y)
            return r
        if op == "step":
            r = _try(lambda: stp(v, hh))
            if r[0] == "ok":
                u = r[1][0] if asv else r[1]
                if not np.all(np.isfinite(u)) or np.max(np.abs(u)) > 10:
                    u = p.u0.astype(complex)
        elif op == "step_same":
            _try(lambda: stp(v, hh))
        elif op == "evolve":
            _try(lambda: solver.evolve(v, 0.0, 3.3 * h, h) if not asv else solver.evolve(v, 0.0, 3.3 * h, h_init=h))
        elif op == "evolve_bad":
            _try(lambda: solver.evolve(v, 0.0, h, 2 * h) if not asv else solver.evolve(v * np.nan, 0.0, h, h_init=h))
        elif op == "reset":
            solver.reset()
        elif op == "boom_step":
            holder["arm"] = int(g.integers(0, 7))
            _try(lambda: stp(v, hh))
            holder["arm"] = None
        elif op == "boom_evolve":
            holder["arm"] = int(g.integers(0, 25))
            _try(lambda: solver.evolve(v, 0.0, 5 * h, h) if not asv else solver.evolve(v, 0.0, 5 * h, h_init=h))
            holder["arm"] = None
        elif op == "hugestep":
            _try(lambda: stp(v, hh * 3 if case["rep"] == "full" else hh * 20))
        elif op == "nanstep":
            _try(lambda: stp(v * np.nan, hh))


def finalop(case, solver, p):
    asv = is_as(case["name"])
    u = p.u0.astype(complex) * 0.9
    h = case["h"]
    if case["final"] == "reset_step":
        solver.reset()
        r = _try(lambda: solver.step(u, h))
        return r, [], []
    r = _try(lambda: solver.evolve(u, 0.1, 0.1 + 4.5 * h, h) if not asv else solver.evolve(u, 0.1, 0.1 + 4.5 * h, h_init=h))
    return r, list(solver.t), list(solver.u)


def cmp_result(a, b, tol=1e-10):
    if a[0] != b[0]:
        return f"{a} vs {b}"
    if a[0] == "exc":
        return None if a[1] == b[1] else f"{a} vs {b}"
    x, y = a[1], b[1]
    if isinstance(x, tuple):
        if not same(x[0], y[0], tol):
            return "different state"
        if abs(x[1] - y[1]) > tol * abs(y[1]) or abs(x[2] - y[2]) > 1e-7 * abs(y[2]):
            return f"step sizes ({x[1]!r},{x[2]!r}) vs ({y[1]!r},{y[2]!r})"
        return None
    return None if same(x, y, tol) else "different state"


def run_C06(case):
    p, cfg, ec = build(case)
    holder = {"arm": None}
    kw = dict(config=cfg, etd_config=ec, loglevel="CRITICAL")
    used = make(case["name"], case["rep"], p.L, bombed(p, holder), **kw)
    g = np.random.default_rng([case["seed"], 7])
    do_ops(case, used, p, g, holder)
    holder["arm"] = None
    fresh = make(case["name"], case["rep"], p.L, bombed(p, {"arm": None}), **kw)
    a, ta, ua = finalop(case, used, p)
    b, tb, ub = finalop(case, fresh, p)
    m = cmp_result(a, b)
    if m:
        return f"after {case['ops']} the final {case['final']} differs from a fresh solver: {m}"
    if len(ta) != len(tb) or any(abs(x - y) > 1e-12 for x, y in zip(ta, tb)):
        return f"after {case['ops']} recorded times differ from a fresh solver"
    if len(ua) != len(ub) or any(not same(x, y, 1e-10) for x, y in zip(ua, ub)):
        return f"after {case['ops']} recorded states differ from a fresh solver"
    return None


# ------------------------------------------------------------------ C07
def gen_C07(rng, tier):
    k = 640 if tier == "quick" else 4000
    for i, s in enumerate(seeds(rng, k)):
        g = np.random.default_rng(s)
        c = base_case(g, s, i)
        if c["cfg"]:
            c["cfg"]["epsilon"] = float(10.0 ** g.uniform(-9, -2))
        c.update(kind=str(g.choice(["chain", "attempts"])) if c["name"] in AS else "chain", h=float(g.uniform(0.02, 0.25)),
                 pat=[int(x) for x in g.integers(0, 7, size=7)], acc=[int(x) for x in g.choice([1, 1, 0, 2, 3], size=7)])
        if i % 5 == 0 and c["rep"] == "diag":
            # frequencies so high that a relative change of 1e-10 of the step size shows
            c.update(kind="chain", fast=True, nls=0.05, pk="cplx", pat=[1] + [int(x) for x in g.integers(4, 12, size=6)])
            if c["cfg"]:
                c["cfg"]["epsilon"] = 1e-2
        yield c


def run_C07(case):
    p, cfg, ec = build(case)
    fast = bool(case.get("fast"))
    if fast:
        w = np.random.default_rng([case["seed"], 3]).uniform(2e6, 9e6, size=p.L.shape) * np.where(np.arange(p.L.size) % 2, 1, -1)
        p.L = -0.5 + 1j * w
    kw = dict(config=cfg, etd_config=ec, loglevel="CRITICAL")
    s = make(case["name"], case["rep"], p.L, p.nl, **kw)
    asv = is_as(case["name"])
    u = p.u0.astype(complex)
    h0 = case["h"]
    fac = [1.0, 1.0, 0.5, 1.3, 1 + 1e-9, 1 + 1e-7, 1 + 1e-5, 1 + 1e-10, 1 + 3e-8, 1 - 2e-9, 1 + 1e-6, 1 + 5e-10]
    h = h0
    if case["kind"] == "chain":
        hs = None
        for j, q in enumerate(case["pat"]):
            h = h0 * fac[q] if (q or hs is None or case["rep"] == "full") else min(hs, 2 * h0)
            f = make(case["name"], case["rep"], p.L, p.nl, **kw)
            if asv:
                a, b = _try(lambda: s.step(u, h)), _try(lambda: f.step(u, h))
            else:
                a, b = _try(lambda: s.step(u, h)), _try(lambda: f.step(u, h))
            m = cmp_result(a, b, 1e-6 if fast else 1e-10 if case["rep"] == "eig" else 1e-12)
            if m:
                return f"step {j} (h={h!r}) of a chain differs from a fresh solver: {m}"
            if a[0] == "exc":
                # the failed step never accepted: going on from the same state must still be fresh
                continue
            u = a[1][0] if asv else a[1]
            hs = a[1][2] if asv else None
            if not np.all(np.isfinite(u)) or np.max(np.abs(u)) > 5:
                break
        return None
    # attempt level, with a scripted accept/reject pattern through the controller: patch the estimate only
    seq = list(case["acc"])
    orig = s._update_stages
    box = {"i": 0, "bad": None}

    def wrapped(v, hh):
        unew, err = orig(v, hh)
        f = make(case["name"], case["rep"], p.L, p.nl, **kw)
        fu, fe = f._update_stages(v, hh)
        if not same(unew, fu, 1e-10):
            box["bad"] = f"attempt {box['i']} (h={hh!r}): new state differs from a fresh solver's"
        sc = max(np.max(np.abs(fe)), 1e-13)
        if np.max(np.abs(err - fe)) > 1e-6 * sc + 1e-14:
            box["bad"] = box["bad"] or f"attempt {box['i']} (h={hh!r}): error estimate differs from a fresh solver's"
        kind = seq[box["i"] % len(seq)]
        ok = kind == 1
        box["i"] += 1
        if box["i"] > 60:
            ok = True
        if not ok and kind > 1:
            return unew, np.array(unew) * (np.nan if kind == 2 else 0.0)       # error factor NaN / infinite
        return unew, np.array(unew) * (0.3 * s.config.epsilon * s.config.safety_f**4 if ok else 5 * s.config.epsilon)
    s._update_stages = wrapped
    for j in range(4):
        try:
            u, h, hs = s.step(u, h)
        except s.SolverError:
            break
        if box["bad"]:
            return box["bad"]
        h = min(hs, 1.5 * h0)
        if j % 2:
            h = h * 0.7
        if not np.all(np.isfinite(u)) or np.max(np.abs(u)) > 5:
            break
    return box["bad"]


# ------------------------------------------------------------------ C08
def gen_C08(rng, tier):
    k = 640 if tier == "quick" else 3000
    for i, s in enumerate(seeds(rng, k)):
        g = np.random.default_rng(s)
        c = base_case(g, s, i)
        c.update(kind="frame", h=float(g.uniform(0.02, 0.15)), nlk=str(g.choice(["plain", "const", "view", "ident", "list"])),
                 dt=str(g.choice(["c", "f", "ro"])))
        yield c


def run_C08(case):
    p, cfg, ec = build(case)
    L = np.array(p.L)
    if case["dt"] == "f" and case["rep"] == "diag":
        L = np.ascontiguousarray(L.real)
    elif case["dt"] == "c":
        L = L.astype(complex)
    Lc = L.copy()
    if case["dt"] == "ro":
        L.setflags(write=False)
    handed = []          # every array the nonlinearity returned, with a copy
    const = p.q0.astype(complex) + 0.0
    constc = const.copy()
    big = np.zeros((2, p.n), complex)

    def nl(u):
        k = case["nlk"]
        if k == "const":
            return const
        if k == "ident":
            r = u                       # a linear part moved into N: returns its argument itself
            return r
        r = np.array(p.nl(u))
        if k == "view":
            b = np.zeros((2, p.n), complex)
            b[1] = r
            r = b[1]
        handed.append((r, r.copy()))
        return r
    lw = L.flags.writeable
    s = make(case["name"], case["rep"], L, nl, config=cfg, etd_config=ec, loglevel="CRITICAL")
    asv = is_as(case["name"])
    u0 = p.u0.astype(complex)
    u0c = u0.copy()
    states = [(u0, u0c, "initial state")]


    def check():
        if L.flags.writeable != lw or not u0.flags.writeable or not const.flags.writeable:
            return "an array of the caller was made read-only (or writeable)"
        if not np.array_equal(L, Lc):
            return "the linear operator was modified"
        if not np.array_equal(const, constc):
            return "a (reused) array returned by the nonlinear function was modified"
        for a, b in handed:
            if not np.array_equal(a, b, equal_nan=True):
                return "an array returned by the nonlinear function was modified"
        for a, b, w in states:
            if not np.array_equal(a, b, equal_nan=True):
                return f"{w} was modified by a later call"
        return None
    u, h = u0, case["h"]
    for j in range(4):
        hh = h if j != 2 else h * 0.6
        r = _try(lambda: s.step(u, hh))
        if r[0] == "exc":
            m = check()
            if m:
                return m
            break
        u = r[1][0] if asv else r[1]
        states.append((u, np.array(u), f"the state returned by step {j}"))
        m = check()
        if m:
            return m
    r = _try(lambda: s.evolve(u0, 0.0, 5 * h, h) if not asv else s.evolve(u0, 0.0, 5 * h, h_init=h))
    if r[0] == "ok":
        states.append((r[1], np.array(r[1]), "the state returned by evolve"))
        for k, x in enumerate(s.u):
            states.append((x, np.array(x), f"snapshot {k}"))
        for k in range(1, len(s.u)):
            for k2 in range(k):
                if np.shares_memory(s.u[k], s.u[k2]) and not (case["nlk"] == "ident"):
                    return f"snapshots {k2} and {k} share memory"
    m = check()
    if m:
        return m
    snaps = list(s.u)
    _try(lambda: s.step(u0 * 0.5, h))
    _try(lambda: s.evolve(u0 * 0.5, 0.0, 3 * h, h) if not asv else s.evolve(u0 * 0.5, 0.0, 3 * h, h_init=h))
    s.reset()
    m = check()
    if m:
        return m
    return None


# ------------------------------------------------------------------ C15
def gen_C15(rng, tier):
    k = 192 if tier == "quick" else 1500
    for s in seeds(rng, 1 if tier == "quick" else 6):
        yield dict(kind="process", seed=s, orders=["plain", "reversed", str(s)])
    for i, s in enumerate(seeds(rng, k)):
        g = np.random.default_rng(s)
        c = base_case(g, s, i)
        o = base_case(g, s + 1, int(g.integers(16)) if i % 2 else i)
        if c["name"] in ETD and i % 3 == 0:
            c["ecfg"] = o["ecfg"] = None
        c.update(kind="pair", other=o, h=float(g.uniform(0.05, 0.15)), defaults=bool(i % 3 == 0))
        yield c


def variants(seed, rep):
    """operators that are easily taken for one another"""
    p = Problem(seed, rep, n=4, scale=0.6, nlscale=0.6)
    L = p.L
    perm, mid = [2, 0, 3, 1], [0, 2, 1, 3]      # the second keeps the first and last entries, sums and norms
    ops = [L, L[mid] if L.ndim == 1 else L[np.ix_(mid, mid)], L[perm] if L.ndim == 1 else L[np.ix_(perm, perm)], L[::-1].copy() if L.ndim == 1 else L.T.copy(), np.conj(L), L * (1 + 1e-7), -1j * L, L]
    nls = [p.nl] * 7 + [lambda u: 0.5 * p.nl(u) + 0.1]
    return p, list(zip(ops, nls))


def iso_child(case):
    """results of all variants of all solvers, run in the given order in this process"""
    items = [(n, r, k) for n, r in SPECS for k in range(8)]
    order = list(range(len(items)))
    if case["order"] == "reversed":
        order.reverse()
    elif case["order"] != "plain":
        np.random.default_rng(int(case["order"])).shuffle(order)
    out = {}
    for i in order:
        name, rep, k = items[i]
        p, vs = variants(case["seed"], rep)
        L, nl = vs[k]
        s = make(name, rep, np.array(L), nl, loglevel="CRITICAL")
        u = p.u0.astype(complex)
        r = []
        for hh in (0.1, 0.05):
            a = s._update_stages(u, hh)
            r.append(a[0] if is_as(name) else a)
            s.reset()
        if is_as(name):
            a = _try(lambda: s.step(u, 0.1))
            r.append(np.array([a[1][1], a[1][2]]) if a[0] == "ok" else np.array([0.0]))
            s.config.epsilon = 10.0 ** -(2 + k)      # a default configuration, changed
        out["/".join((name, rep, str(k)))] = [[[float(x.real), float(x.imag)] for x in np.asarray(v).ravel().astype(complex)] for v in r]
    return out


def run_process(case):
    import json
    import os
    import subprocess
    import sys
    res = []
    for o in case["orders"]:
        r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "run.py"), "isochild",
                            json.dumps(dict(seed=case["seed"], order=o))], capture_output=True, text=True)
        line = [x for x in r.stdout.splitlines() if x.startswith("RESULT ")]
        if not line:
            return "running the solvers one after another in one process fails: " + r.stderr[-400:]
        res.append(json.loads(line[-1][7:]))
    for k in res[0]:
        for o, r in zip(case["orders"][1:], res[1:]):
            for a, b in zip(res[0][k], r[k]):
                if len(a) != len(b) or not same(np.array(a), np.array(b), 1e-10):
                    return f"solver {k} (class/representation/variant) gives other results when the solvers of the same process run in {o} order"
    return None


def run_C15(case):
    if case["kind"] == "process":
        return run_process(case)
    def mk(c):
        p, cfg, ec = build(c)
        if case["defaults"]:
            cfg = ec = None
        return p, make(c["name"], c["rep"], p.L, p.nl, config=cfg, etd_config=ec, loglevel="CRITICAL"), cfg, ec

    def steps(c, s, p, mid=None):
        u, h, out = p.u0.astype(complex), case["h"], []
        for j in range(4):
            r = _try(lambda: s.step(u, h))
            out.append(r)
            if mid:
                mid(j)
            if r[0] == "exc":
                continue
            u = r[1][0] if is_as(c["name"]) else r[1]
        r = _try(lambda: s.evolve(p.u0.astype(complex), 0.0, 3.5 * h, h) if not is_as(c["name"])
                 else s.evolve(p.u0.astype(complex), 0.0, 3.5 * h, h_init=h))
        out.append(r)
        out.append(("ok", np.array(s.t)))
        return out

    def cfgvals(s):
        v = []
        for nm in ("config", "etd_config"):
            c = getattr(s, nm, None)
            if c is not None:
                v += [getattr(c, a) for a in ("epsilon", "incr_f", "decr_f", "safety_f", "adapt_cutoff", "minh",
                                              "modecutoff", "contour_points", "contour_radius") if hasattr(c, a)]
        return v
    p, ref, _, _ = mk(case)
    expect = steps(case, ref, p)
    p1, s1, c1, e1 = mk(case)
    p2, s2, c2, e2 = mk(case["other"])
    for s, c, e in ((s1, c1, e1), (s2, c2, e2)):
        if c is not None and s.config is not c:
            return "the configuration object passed is not the one used"
        if e is not None and hasattr(s, "etd_config") and s.etd_config is not e:
            return "the ETD configuration object passed is not the one used"
    v1 = cfgvals(s1)
    h = case["h"]

    def mid(j):
        if j == 0:
            _try(lambda: s2.step(p2.u0.astype(complex), h * 0.8))
        if j == 1:
            _try(lambda: s2.evolve(p2.u0.astype(complex), 0.0, 2 * h, h * 0.5) if not is_as(case["other"]["name"])
                 else s2.evolve(p2.u0.astype(complex), 0.0, 2 * h, h_init=h * 0.5))
            if hasattr(s2, "config"):
                s2.config.epsilon = 0.5
                s2.config.safety_f = 0.1
                s2.config.adapt_cutoff = 0.9
                s2.config.minh = 1e-3
                s2.config.incr_f = 3.5
                s2.config.decr_f = 0.3
            if hasattr(s2, "etd_config"):
                s2.etd_config.modecutoff = 1e-9
                s2.etd_config.contour_points = 2
                s2.etd_config.contour_radius = 7.0
        if j == 2:
            s2.reset()
    got = steps(case, s1, p1, mid)
    for j, (a, b) in enumerate(zip(got, expect)):
        m = cmp_result(a, b)
        if m:
            return f"result {j} changed because another solver object was used: {m}"
    if cfgvals(s1) != v1:
        return f"configuration of one solver changed: {v1} -> {cfgvals(s1)}"
    # a later solver with defaults must see the documented defaults
    if case["defaults"]:
        p3, s3, _, _ = mk(case)
        if cfgvals(s3) != v1:
            return f"defaults of a new solver are {cfgvals(s3)} instead of {v1}"
        m = cmp_result(_try(lambda: s3.step(p3.u0.astype(complex), h)), expect[0])
        if m:
            return f"a new default solver behaves differently: {m}"
    # later changes of every setting of passed configurations take effect, exactly as if given at construction
    if not case["defaults"]:
        g = np.random.default_rng(case["seed"])
        late_s = dict(epsilon=1e-7, incr_f=2.0, decr_f=0.4, safety_f=0.6, adapt_cutoff=0.3, minh=1e-12)
        late_e = dict(contour_points=64, contour_radius=2.5, modecutoff=0.9)
        for used in (False, True):
            pz, _, _ = build(case)
            kw, new = {}, {}
            for nm, mkc, late in (("config", sconfig, late_s), ("etd_config", econfig, late_e)):
                keys = [k for k in late if g.random() < 0.6]
                kw[nm] = mkc(**({} if nm == "config" else dict(contour_points=2, contour_radius=0.3, modecutoff=0.5)))
                new[nm] = mkc(**({} if nm == "config" else dict(contour_points=2, contour_radius=0.3, modecutoff=0.5)))
                for k in keys:
                    setattr(new[nm], k, late[k])
                kw[nm + "_late"] = {k: late[k] for k in keys}
            before = {nm: dict(vars(kw[nm])) for nm in ("config", "etd_config")}
            a = make(case["name"], case["rep"], pz.L, pz.nl, config=kw["config"], etd_config=kw["etd_config"], loglevel="CRITICAL")
            b = make(case["name"], case["rep"], pz.L, pz.nl, config=new["config"], etd_config=new["etd_config"], loglevel="CRITICAL")
            run = (lambda s: s.evolve(pz.u0.astype(complex), 0.0, 2 * h, h)) if not is_as(case["name"]) else \
                (lambda s: s.evolve(pz.u0.astype(complex), 0.0, 2 * h, h_init=h))
            if used:
                _try(lambda: run(a))
            if any(dict(vars(kw[nm])) != before[nm] for nm in before):
                return "the solver modified a configuration object passed to it"
            for nm in ("config", "etd_config"):
                for k, v in kw[nm + "_late"].items():
                    setattr(kw[nm], k, v)
            m = cmp_result(_try(lambda: run(a)), _try(lambda: run(b)))
            if m:
                return f"later changes {kw['config_late'] if is_as(case['name']) else ''} {kw['etd_config_late']} of the passed configuration do not take effect" \
                       f"{' after a run' if used else ''}: {m}"
    # later changes to a passed configuration take effect
    if is_as(case["name"]) and not case["defaults"]:
        cfg = sconfig(epsilon=1e-3)
        pz, _, ec = build(case)
        a = make(case["name"], case["rep"], pz.L, pz.nl, config=cfg, etd_config=ec, loglevel="CRITICAL")
        cfg.epsilon = 1e-9
        b = make(case["name"], case["rep"], pz.L, pz.nl, config=sconfig(epsilon=1e-9), etd_config=ec, loglevel="CRITICAL")
        m = cmp_result(_try(lambda: a.step(pz.u0.astype(complex), h)), _try(lambda: b.step(pz.u0.astype(complex), h)))
        if m:
            return f"a later change of the passed configuration has no effect: {m}"
        if cfg.epsilon != 1e-9:
            return "the solver modified the passed configuration"
    return None


ORACLES = {"C06": (gen_C06, run_C06), "C07": (gen_C07, run_C07), "C08": (gen_C08, run_C08), "C15": (gen_C15, run_C15)}
