"""Concrete oracles for C14 (configuration), C16 (logging), C24 (construction and solver type)."""
import logging
import math
import numpy as np
from common import SPECS, AS, CS, ETD, Problem, cls, make, is_as, sconfig, econfig, seeds, same, raises

VAL = {  # parameter -> (predicate for valid, candidate values)
    "epsilon": lambda v: v > 0, "incr_f": lambda v: v > 1, "decr_f": lambda v: v < 1, "safety_f": lambda v: v <= 1,
    "adapt_cutoff": lambda v: v < 1, "minh": lambda v: v > 0, "modecutoff": lambda v: 0 < v <= 1, "contour_radius": lambda v: v > 0,
}
SC = ["epsilon", "incr_f", "decr_f", "safety_f", "adapt_cutoff", "minh"]
EC = ["modecutoff", "contour_points", "contour_radius"]
DEF = dict(epsilon=1e-4, incr_f=1.25, decr_f=0.85, safety_f=0.8, adapt_cutoff=0.01, minh=1e-16, modecutoff=0.01, contour_points=32,
           contour_radius=1.0)
CAND = [0, 0.0, -0.0, 1, 1.0, -1, -1.0, 2, 0.5, 1e-300, -1e-300, 1 + 1e-15, 1 - 1e-15, 1e300, math.inf, -math.inf, math.nan, 3, 32, 33,
        5e-324, -5e-324]


def enc(v):
    return repr(v)


def dec(s):
    return eval(s, {"nan": math.nan, "inf": math.inf, "np": np})  # noqa: S307


def expect(name, v):
    """exception class or None"""
    if name == "contour_points":
        if not isinstance(v, int):
            return TypeError
        if isinstance(v, bool):
            return (TypeError, ValueError)      # 0 or 1: too small, or not a count at all
        return None if v > 1 else ValueError
    if isinstance(v, float) and math.isnan(v):
        return ValueError
    return None if VAL[name](v) else ValueError


def gen_C14(rng, tier):
    for name in SC + EC:
        for v in CAND:
            for how in ("ctor", "set", "pos"):
                yield dict(kind=how, name=name, v=enc(v), seed=0)
        if name == "contour_points":
            for v in ("'32'", "2.5", "32.0", "None", "1", "2", "10**6", "-7", "True", "False", "10**30"):
                for how in ("ctor", "set", "pos"):
                    yield dict(kind=how, name=name, v=v, seed=0)
    for s in seeds(rng, 200 if tier == "quick" else 5000):
        g = np.random.default_rng(s)
        name = str(g.choice(SC + EC))
        if name == "contour_points":
            v = int(g.integers(-3, 200))
        else:
            v = float(g.normal() * 10.0 ** g.integers(-3, 3)) if g.random() < 0.5 else float(1 + g.normal() * 10.0 ** -g.integers(1, 16))
        yield dict(kind=str(g.choice(["ctor", "set", "pos"])), name=name, v=enc(v), seed=s)
    for s in seeds(rng, 30):
        yield dict(kind="seq", seed=s)


def vals(o):
    return {n: getattr(o, n) for n in (SC if hasattr(o, "epsilon") else EC)}


def run_C14(case):
    g = np.random.default_rng(case["seed"])
    if case["kind"] == "seq":
        for ctor, names in ((sconfig, SC), (econfig, EC)):
            o, m = ctor(), {n: DEF[n] for n in names}
            other = ctor()
            for _ in range(40):
                n = str(g.choice(names))
                v = CAND[int(g.integers(len(CAND)))]
                e = expect(n, v)
                try:
                    setattr(o, n, v)
                    if e:
                        return f"{n} = {v!r} was accepted"
                    m[n] = v
                except (ValueError, TypeError) as x:
                    if e is None or not isinstance(x, e):
                        return f"{n} = {v!r}: {type(x).__name__}, expected {e}"
                if vals(o) != m:
                    return f"after {n} = {v!r}: parameters are {vals(o)}, expected {m}"
            if vals(other) != {n: DEF[n] for n in names}:
                return "another configuration object changed"
        return None
    name, v = case["name"], dec(case["v"])
    names = SC if name in SC else EC
    ctor = sconfig if name in SC else econfig
    e = expect(name, v)
    base = {n: (DEF[n] * 0.9 if n in ("epsilon", "decr_f", "safety_f", "adapt_cutoff", "modecutoff", "contour_radius") else
                DEF[n] * 2 if n in ("incr_f", "minh") else 40) for n in names}
    want = dict(base)
    if case["kind"] == "set":
        o = ctor(**base)
        if vals(o) != base:
            return f"constructor did not keep its arguments: {vals(o)} vs {base}"
        try:
            setattr(o, name, v)
        except (ValueError, TypeError) as x:
            if e is None:
                return f"{name} = {v!r} refused: {x}"
            if not isinstance(x, e):
                return f"{name} = {v!r}: {type(x).__name__} instead of {e}"
            return None if vals(o) == base else f"refused {name} = {v!r} changed the object: {vals(o)}"
        if e is not None:
            return f"{name} = {v!r} was accepted"
        want[name] = v
        return None if vals(o) == want else f"after {name} = {v!r}: {vals(o)}, expected {want}"
    want[name] = v
    try:
        o = ctor(**want) if case["kind"] == "ctor" else type(ctor())(*[want[n] for n in names])
    except (ValueError, TypeError) as x:
        if e is None:
            return f"constructor refused {name}={v!r}: {x}"
        return None if isinstance(x, e) else f"constructor with {name}={v!r}: {type(x).__name__} instead of {e}"
    if e is not None:
        return f"constructor accepted {name}={v!r}"
    if vals(o) != want:
        return f"constructor: {vals(o)}, expected {want}"
    return None if vals(ctor()) == {n: DEF[n] for n in names} else f"documented defaults changed: {vals(ctor())}"


# ------------------------------------------------------------------ C16
LV = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}


def gen_C16(rng, tier):
    from p_control import INTERVALS
    k = 4 if tier == "quick" else 40
    for name, rep in SPECS:
        for i, s in enumerate(seeds(rng, k)):
            g = np.random.default_rng(s)
            t0, tf = INTERVALS[int(g.integers(len(INTERVALS)))]
            if not 0.05 < tf - t0 <= 2:
                t0, tf = [(-1.0, 0.0), (0.0, 1.0), (-0.3, 0.3)][i % 3]
            if name in AS and i % 2:
                yield dict(kind="neutral", name=name, rep=rep, seed=s, t0=t0, tf=tf, h=(tf - t0) * 0.004, n=250)
            else:
                yield dict(kind="neutral", name=name, rep=rep, seed=s, t0=t0, tf=tf, h=(tf - t0) * float(g.uniform(0.004, 0.3)))
        for i, s in enumerate(seeds(rng, 6 if tier == "quick" else 40)):
            g = np.random.default_rng(s)
            yield dict(kind="neutral", name=name, rep=rep, seed=s, t0=0.0, tf=1.0, h=float(g.uniform(0.05, 0.3)),
                       nan=[int(q) for q in g.integers(0, 16, 2)], val=["nan", "inf"][i % 2], comp=[0, 1, None][i % 3])
        yield dict(kind="fail", name=name, rep=rep, seed=1)
        yield dict(kind="handlers", name=name, rep=rep, seed=2)
    for lv in list(LV) + [10, 20, 30, 40, 50, 15, 0, 35]:
        yield dict(kind="level", lv=lv)
    for lv in ("BOGUS", "", "Level", "debugg", "handlers", "Logger", "getLogger", "StreamHandler", "raiseExceptions2", "warning "):
        yield dict(kind="badlevel", lv=lv)


def run_C16(case):
    k = case["kind"]
    from rkstiff.util import loghelper as lh
    if k == "level":
        lv = case["lv"]
        want = LV.get(lv, lv)
        forms = [lv] + ([lv.lower(), lv.capitalize(), lv[:2].lower() + lv[2:]] if isinstance(lv, str) else [])
        for f in forms:
            lg = lh.setup_logger("rkstiff.test_levels", "WARNING")
            lh.set_log_level(lg, f)
            if lg.level != want:
                return f"set_log_level({f!r}) gives level {lg.level}, expected {want}"
            if lh.setup_logger("rkstiff.test_levels2", f).level != want:
                return f"setup_logger(..., {f!r}) gives a wrong level"
            s = make("IF4", "diag", np.zeros(2), lambda u: u, loglevel=f)
            if s.logger.level != want:
                return f"solver created with loglevel {f!r} has level {s.logger.level}"
            s.set_loglevel("ERROR")
            s.set_loglevel(f)
            if s.logger.level != want:
                return f"set_loglevel({f!r}) gives level {s.logger.level}"
            if len(s.logger.handlers) != 1:
                return "logger has %d handlers" % len(s.logger.handlers)
        for nm, v in LV.items():
            if lh.get_level_name(v) != nm:
                return f"get_level_name({v}) is {lh.get_level_name(v)!r}"
        return None
    if k == "badlevel":
        lv = case["lv"]
        lg = lh.setup_logger("rkstiff.test_bad", "ERROR")
        m = raises(ValueError, lh.set_log_level, lg, lv)
        if m:
            return f"set_log_level({lv!r}) {m}"
        m = raises(ValueError, lh.setup_logger, "rkstiff.test_bad", lv)
        if m:
            return f"setup_logger({lv!r}) {m}"
        s = make("IF34", "diag", np.zeros(2), lambda u: u, loglevel="ERROR")
        m = raises(ValueError, s.set_loglevel, lv)
        if m:
            return f"solver.set_loglevel({lv!r}) {m}"
        if lg.level != 40 or s.logger.level != 40:
            return f"refused level {lv!r} changed the level"
        return None
    name, rep = case["name"], case["rep"]
    if k == "handlers":
        p = Problem(3, rep)
        h0 = [len(logging.getLogger().handlers), len(logging.getLogger("rkstiff").handlers)]
        for lv in ("DEBUG", "warning", 20, "CRITICAL", "CRITICAL"):
            s = make(name, rep, p.L, p.nl, loglevel=lv)
            if s.logger.name != "rkstiff." + name:
                return f"logger is named {s.logger.name!r}"
            if len(s.logger.handlers) != 1:
                return f"{name}: logger has {len(s.logger.handlers)} handlers"
        base = type(s)

        class Mine(base):               # defined here, so __qualname__ is not __name__
            pass
        for lv in ("DEBUG", 30):
            s = Mine(p.L, p.nl, loglevel=lv, **({"diagonalize": True} if rep == "eig" else {}))
            if s.logger.name != "rkstiff.Mine" or len(s.logger.handlers) != 1:
                return f"a subclass named Mine has logger {s.logger.name!r} with {len(s.logger.handlers)} handlers"
        if [len(logging.getLogger().handlers), len(logging.getLogger("rkstiff").handlers)] != h0:
            return "handlers were added to parent loggers"
        return None
    from p_hist import _try, cmp_result
    p = Problem(case["seed"], rep, scale=0.4, nlscale=0.6 if "n" not in case else 0.3)
    asv = is_as(name)
    ref = None
    for lv in ("CRITICAL", "DEBUG", "INFO", "warning", 5, "ERROR"):
        cfg = None
        if asv:
            cfg = sconfig(epsilon=1e-5) if "n" not in case else sconfig(epsilon=1e-2, incr_f=3.999)
        cnt = [0]

        def nl(u):
            cnt[0] += 1
            v = np.array(p.nl(u))
            if cnt[0] - 1 in case.get("nan", ()):
                v[slice(None) if case["comp"] is None else case["comp"]] = float(case["val"])
            return v
        s = make(name, rep, p.L, nl, config=cfg, loglevel=lv)
        u0 = p.u0.astype(complex)
        if k == "fail":
            r = _try(lambda: s.step(u0 * np.nan, 0.1))
            t, us = [], []
            r2 = _try(lambda: s.evolve(u0, 0.0, 0.1, 1.0) if not asv else s.evolve(u0 * np.nan, 0.0, 0.1))
            out = (r, t, us, r2)
        elif "n" in case:
            s._accept = False
            r = _try(lambda: s.evolve(u0, case["t0"], case["tf"], h_init=case["h"]))
            out = (r, list(s.t), list(s.u), ("ok", np.zeros(1)))
        else:
            kw = dict(h_init=case["h"]) if asv else dict(h=case["h"])
            r = _try(lambda: s.evolve(u0, case["t0"], case["tf"], **kw))
            t, us = list(s.t), list(s.u)
            out = (r, t, us, _try(lambda: s.step(u0 * 0.5, case["h"])))
        if ref is None:
            ref = out
            continue
        m = cmp_result(out[0], ref[0], 1e-13) or cmp_result(out[3], ref[3], 1e-13)
        if m:
            return f"{name}/{rep}: log level {lv!r} changes the result: {m}"
        if out[1] != ref[1] or len(out[2]) != len(ref[2]) or any(not np.array_equal(a, b, equal_nan=True) for a, b in zip(out[2], ref[2])):
            return f"{name}/{rep}: log level {lv!r} changes the stored snapshots"
    return None


# ------------------------------------------------------------------ C24
def _frozen(A):
    A.setflags(write=False)
    return A


# the values and the memory layout of an operator play no part in whether it is accepted
OPS = {"zero": lambda s: np.zeros(s), "ones": lambda s: np.ones(s), "identity": lambda s: np.ones(s) if len(s) == 1 else np.eye(s[0]),
       "nilpotent": lambda s: np.zeros(s) if len(s) == 1 else np.eye(s[0], k=1), "growing": lambda s: np.full(s, 3.0) if len(s) == 1 else 3 * np.eye(s[0]),
       "huge": lambda s: np.full(s, 1e200), "tiny": lambda s: np.full(s, 1e-200), "imaginary": lambda s: 1j * np.ones(s),
       "mixed": lambda s: 10.0 ** np.linspace(-12, 12, int(np.prod(s))).reshape(s), "frozen": lambda s: _frozen(np.ones(s)),
       "int": lambda s: np.ones(s, int), "single": lambda s: np.ones(s, np.float32), "csingle": lambda s: np.ones(s, np.complex64),
       "fortran": lambda s: np.asfortranarray(np.arange(float(np.prod(s))).reshape(s)),
       "strided": lambda s: np.arange(2.0 ** len(s) * np.prod(s)).reshape(tuple(2 * q for q in s))[tuple([slice(None, None, 2)] * len(s))],
       "unsymmetric": lambda s: np.arange(float(np.prod(s))).reshape(s), "large": lambda s: np.ones(tuple(40 * q for q in s))}


def gen_C24(rng, tier):
    for name, rep in SPECS:
        for n in (1, 2, 5):
            yield dict(kind="ok", name=name, rep=rep, n=n)
    for name in AS + CS:
        for shp in ([2, 3], [3, 2], [1, 4], [4, 1], [2, 2, 2], [1, 1, 1], [], [0, 2], [3, 3, 1]):
            yield dict(kind="bad", name=name, shape=shp)
    for shp in ([1, 1], [2, 2], [5, 5]):
        yield dict(kind="if45", name="IF45DP", shape=shp)
    for name in ("IF34", "ETD34", "ETD35"):
        for cond in (1.0, 1e2, 1e5, 1e9, 1e13):
            yield dict(kind="cond", name=name, cond=cond)
    for name, rep in SPECS:
        if rep != "eig":
            for what in OPS:
                yield dict(kind="entries", name=name, rep=rep, what=what)
    yield dict(kind="type", name="x")


def run_C24(case):
    from rkstiff.util.solver_type import SolverType as T
    k = case["kind"]
    nl = lambda u: -u
    if k == "ok":
        name, rep, n = case["name"], case["rep"], case["n"]
        L = -np.arange(1.0, n + 1)
        if rep != "diag":
            L = np.diag(L) + np.triu(np.ones((n, n)), 1) * 0.1
        for LL in (L, L.astype(complex), L.astype(int) if rep == "diag" else L):
            s = make(name, rep, LL, nl, loglevel="CRITICAL")
            if s.lin_op is not LL and not np.array_equal(s.lin_op, LL):
                return f"{name}/{rep}: lin_op not kept"
            if s.nl_func is not nl:
                return f"{name}/{rep}: nl_func not kept"
            if list(s.t) != [] or list(s.u) != []:
                return f"{name}/{rep}: t/u not empty after construction"
            want = T.ADAPTIVE_STEP if is_as(name) else T.CONSTANT_STEP
            if s.solver_type is not want:
                return f"{name}: solver_type {s.solver_type}"
            if T.from_solver(s) is not want:
                return f"{name}: from_solver gives {T.from_solver(s)}"
            u = np.ones(n)
            s._update_stages(u, 0.1)
            a, b = make(name, rep, LL, nl, loglevel="CRITICAL"), make(name, rep, LL, nl, loglevel="CRITICAL")
            if a.t is b.t or a.u is b.u:
                return f"{name}: two solvers share their storage"
        return None
    if k in ("bad", "if45"):
        A = np.ones(tuple(case["shape"])) + (np.eye(case["shape"][0]) if k == "if45" else 0)
        m = raises(ValueError, cls(case["name"]), A, nl, loglevel="CRITICAL")
        if m:
            return f"{case['name']} with operator of shape {tuple(case['shape'])} {m}"
        if case["name"] in ("IF34", "ETD34", "ETD35"):
            m = raises(ValueError, cls(case["name"]), A, nl, diagonalize=True, loglevel="CRITICAL")
            if m:
                return f"{case['name']}(diagonalize=True) with operator of shape {tuple(case['shape'])} {m}"
        return None
    if k == "entries":
        L = OPS[case["what"]]((4,) if case["rep"] == "diag" else (4, 4))
        try:
            s = make(case["name"], case["rep"], L, nl, loglevel="CRITICAL")
        except Exception as x:  # noqa: BLE001
            return f"{case['name']}/{case['rep']} refuses the operator '{case['what']}' of shape {L.shape}: {type(x).__name__}: {x}"
        if s.nl_func is not nl or list(s.t) or list(s.u):
            return f"{case['name']}/{case['rep']} with operator '{case['what']}': not a fresh solver of the given functions"
        if s.lin_op is not L and not (np.array_equal(s.lin_op, L)):
            return f"{case['name']}/{case['rep']}: operator '{case['what']}' not kept"
        return None
    if k == "cond":
        L = np.diag([-1.0, -case["cond"], -2.0])
        try:
            s = make(case["name"], "eig", L, nl, loglevel="CRITICAL")
        except ValueError as x:
            return f"{case['name']}(diagonalize=True) refuses a matrix of condition number {case['cond']:g}: {x}"
        return None if s.lin_op is L or np.array_equal(s.lin_op, L) else "lin_op not kept"

    class Duck:
        solver_type, t, u, config, lin_op, nl_func, logger = T.AS, [], [], None, None, None, None
        step = evolve = reset = _update_stages = _reset = set_loglevel = lambda self, *a: None

    class Duck2(Duck):
        solver_type = T.CS
        MAX_LOOPS, config, etd_config, MIN_S, MAX_S = 50, sconfig(), econfig(), 0.25, 4.0

    for nm, want in (("IF4", T.CS), ("ETD4", T.CS), ("IF34", T.AS)):      # attributes added by the user do not matter
        s = make(nm, "diag", np.zeros(2), nl, loglevel="CRITICAL")
        for a in ("config", "etd_config", "MAX_LOOPS", "epsilon", "h", "note"):
            if not hasattr(s, a):
                setattr(s, a, sconfig())
        if T.from_solver(s) is not want:
            return f"from_solver of an {nm} with user-defined attributes gives {T.from_solver(s)}"
    for x in (Duck(), Duck2(), sconfig(), econfig(), None, 1, "IF4", object(), np.ones(3), T.AS, cls("IF4"), cls("IF34")):
        m = raises(TypeError, T.from_solver, x)
        if m:
            return f"from_solver({x!r}) {m}"
    if T.AS is not T.ADAPTIVE_STEP or T.CS is not T.CONSTANT_STEP:
        return "aliases differ"
    return None


ORACLES = {"C14": (gen_C14, run_C14), "C16": (gen_C16, run_C16), "C24": (gen_C24, run_C24)}
