"""Concrete oracles for C01..C05 (time stepping and step-size control)."""
import math
from fractions import Fraction as Fr
import numpy as np
from common import (SPECS, AS, QORD, Problem, cls, make, is_as, sconfig, seeds, same)


# ---------------------------------------------------------------- mock solvers
def mock_as(q, script, cfg, loglevel="CRITICAL"):
    """Adaptive solver whose attempts follow `script`; records every attempt."""
    from rkstiff.solveras import BaseSolverAS

    class MockAS(BaseSolverAS):
        def _reset(self):
            pass

        def _q(self):
            return q

        def _update_stages(self, u, h):
            i = len(self.rec)
            unew, err = script(i, np.array(u), h)
            self.rec.append((np.array(u), h, np.array(unew), np.array(err)))
            return unew, err

    s = MockAS(np.zeros(3), lambda u: u, config=cfg, loglevel=loglevel)
    s.rec = []
    return s


def mock_cs(loglevel="CRITICAL"):
    from rkstiff.solvercs import BaseSolverCS

    class MockCS(BaseSolverCS):
        def _reset(self):
            pass

        def _update_stages(self, u, h):
            unew = u * 0.5 + np.array([1.0, len(self.rec), 0.25])
            self.rec.append((np.array(u), h, np.array(unew)))
            return unew

    s = MockCS(np.zeros(3), lambda u: u, loglevel=loglevel)
    s.rec = []
    return s


def expected_s(cfg, q, u, err):
    mag = np.abs(u)
    idx = mag / mag.max() > cfg.adapt_cutoff
    return float(cfg.safety_f * np.power(cfg.epsilon * np.linalg.norm(u[idx]) / np.linalg.norm(err[idx]), 1.0 / q))


def spy(solver):
    """Record attempts of a real solver through its _update_stages interface."""
    rec = []
    orig = solver._update_stages

    def wrapped(u, h):
        unew, err = orig(u, h)
        rec.append((np.array(u), h, np.array(unew), np.array(err)))
        return unew, err
    solver._update_stages = wrapped
    return rec


def spy_step(solver):
    rec = []
    orig = solver.step

    def wrapped(u, h, *a, **k):
        r = orig(u, h, *a, **k)
        rec.append((u, h, r))
        return r
    solver.step = wrapped
    return rec


# ---------------------------------------------------------------- scripts
def ctl_script(seed, mode, q, cfg):
    """(attempt index, u, h) -> (unew, err); the accept factor s is set directly by the script."""
    g = np.random.default_rng(seed)
    pat = g.uniform(0.05, 5.5, size=400)
    if mode == "reject":
        pat = g.uniform(0.05, 0.999, size=400)
    elif mode == "accept":
        pat = g.uniform(1.001, 6.0, size=400)
    elif mode == "flat":
        pat = np.full(400, 1.0 + 0.2 * g.random())
    elif mode == "rejfirst":
        pat = np.where(np.arange(400) % 3 == 2, g.uniform(1.01, 5, 400), g.uniform(0.05, 0.99, 400))
    elif mode == "slightrej":       # rejected by a hair: the accepted step is slightly shorter than asked for
        pat = np.where(g.random(400) < 0.5, 1.0 - 1e-13, 1.001)
    elif mode == "manyrej":
        k = int(g.integers(44, 54))
        pat = np.concatenate([g.uniform(0.9, 0.999, k), g.uniform(1.01, 3, 400)])
    bad = {}
    if mode == "bad":
        kinds = ["nan_u", "inf_u", "nan_e", "inf_e", "nan_small", "zero_e", "nan_all"]
        for i in range(400):
            if g.random() < 0.45:
                bad[i] = kinds[int(g.integers(len(kinds)))]

    def script(i, u, h):
        gi = np.random.default_rng([seed, i])
        n = 5
        unew = gi.uniform(0.5, 1, n) * np.exp(2j * np.pi * gi.random(n))
        small = max(cfg.adapt_cutoff, 0.0) * 0.5
        unew[3] *= small
        err = gi.uniform(0.5, 1, n) * np.exp(2j * np.pi * gi.random(n))
        err[3] *= 1e3 if mode != "flat" else 1.0     # insignificant component: huge error must be ignored
        s0 = expected_s(cfg, q, unew, err)
        target = pat[i % len(pat)]
        if cfg.safety_f > 0 and s0 > 0:
            err = err * (s0 / target) ** q
        kind = bad.get(i)
        if kind == "nan_u":
            unew[int(gi.integers(n))] = np.nan
        elif kind == "inf_u":
            unew[int(gi.integers(n))] = np.inf
        elif kind == "nan_e":
            err[int(np.argmax(np.abs(unew)))] = np.nan
        elif kind == "inf_e":
            err[int(np.argmax(np.abs(unew)))] = np.inf
        elif kind == "nan_small" and small > 0:
            err[3] = np.nan
        elif kind == "zero_e":
            err[:] = 0
        elif kind == "nan_all":
            unew[:] = np.nan
            err[:] = np.nan
        return unew, err
    return script


def rand_cfg(g, zero_cut=False):
    return dict(epsilon=float(10.0 ** g.uniform(-8, 1)), incr_f=float(g.choice([1.25, 1.01, 1.0 + 4 * g.random(), 5.0])),
                decr_f=float(g.choice([0.85, 0.999, g.uniform(0.1, 0.99)])),
                safety_f=float(g.choice([0.8, 1.0, g.uniform(0.3, 1)])),
                adapt_cutoff=float(0.0 if zero_cut else g.choice([0.01, 0.0, g.uniform(0, 0.4)])),
                minh=float(g.choice([1e-16, 1e-16, 10.0 ** g.uniform(-12, -2)])))


# ---------------------------------------------------------------- C04 / C05
# boundary situations with exactly representable factors: cfg, h, [(u, err)...], expected outcome
# outcome: (number of attempts, last attempted h, suggested h) or (number of attempts, exception name)
_E = 2.0 ** -10
EXACT = {
    "s=1": (dict(epsilon=_E, safety_f=1.0, adapt_cutoff=0.0, incr_f=1.25, minh=1e-9), 0.5, [([1.0], [_E])], (1, 0.5, 0.5)),
    "s=incr_f": (dict(epsilon=_E, safety_f=1.0, adapt_cutoff=0.0, incr_f=2.0, minh=1e-9), 0.5, [([1.0], [_E / 4])], (1, 0.5, 0.5)),
    "s>4": (dict(epsilon=_E, safety_f=1.0, adapt_cutoff=0.0, incr_f=2.0, minh=1e-9), 0.5, [([1.0], [_E / 64])], (1, 0.5, 2.0)),
    "incr_f=4": (dict(epsilon=_E, safety_f=1.0, adapt_cutoff=0.0, incr_f=4.0, minh=1e-9), 0.5, [([1.0], [_E / 64])], (1, 0.5, 0.5)),
    "h=minh": (dict(epsilon=_E, safety_f=1.0, adapt_cutoff=0.0, minh=0.125), 0.5, [([1.0], [1.0]), ([1.0], [_E])], (2, 0.125, 0.125)),
    "h<minh": (dict(epsilon=_E, safety_f=1.0, adapt_cutoff=0.0, minh=0.126), 0.5, [([1.0], [1.0]), ([1.0], [_E])], (1, "MinimumStepReached")),
    "first h below minh": (dict(epsilon=_E, safety_f=1.0, adapt_cutoff=0.0, minh=0.5), 0.25, [([1.0], [_E])], (1, 0.25, 0.25)),
    "decr_f<1/4": (dict(epsilon=_E, safety_f=1.0, adapt_cutoff=0.0, decr_f=0.125, minh=1e-9), 1.0, [([1.0], [4 * _E]), ([1.0], [_E])], (2, 0.125, 0.125)),
    "s=1/4": (dict(epsilon=_E, safety_f=1.0, adapt_cutoff=0.0, decr_f=0.75, minh=1e-9), 1.0, [([1.0], [16 * _E]), ([1.0], [_E])], (2, 0.25, 0.25)),
    "s=1/2": (dict(epsilon=_E, safety_f=1.0, adapt_cutoff=0.0, decr_f=0.75, minh=1e-9), 1.0, [([1.0], [4 * _E]), ([1.0], [_E])], (2, 0.5, 0.5)),
    "nan": (dict(epsilon=_E, safety_f=1.0, adapt_cutoff=0.0, decr_f=0.75, minh=1e-9), 1.0, [([math.nan], [_E]), ([1.0], [_E])], (2, 0.25, 0.25)),
    "err=0": (dict(epsilon=_E, safety_f=1.0, adapt_cutoff=0.0, decr_f=0.75, minh=1e-9), 1.0, [([1.0], [0.0]), ([1.0], [_E])], (2, 0.25, 0.25)),
    "err=inf": (dict(epsilon=_E, safety_f=1.0, adapt_cutoff=0.0, decr_f=0.75, minh=1e-9), 1.0, [([1.0], [math.inf]), ([1.0], [_E])], (2, 0.25, 0.25)),
    "u=0": (dict(epsilon=_E, safety_f=1.0, adapt_cutoff=0.0, decr_f=0.75, minh=1e-9), 1.0, [([0.0], [0.0]), ([1.0], [_E])], (2, 0.25, 0.25)),
    "cutoff": (dict(epsilon=_E, safety_f=1.0, adapt_cutoff=0.5, minh=1e-9), 1.0, [([1.0, 0.5], [_E, 9.0])], (1, 1.0, 1.0)),
    "cutoff negative": (dict(epsilon=_E, safety_f=1.0, adapt_cutoff=-1.0, minh=1e-9, decr_f=0.75), 1.0,
                        [([1.0, 0.0], [0.0, _E])], (1, 1.0, 1.0)),
    "51 attempts": (dict(epsilon=_E, safety_f=1.0, adapt_cutoff=0.0, decr_f=0.75, minh=1e-90), 1.0,
                    [([1.0], [4 * _E])] * 50 + [([1.0], [_E])] * 9, (51, 2.0 ** -50, 2.0 ** -50)),
    "51 rejections": (dict(epsilon=_E, safety_f=1.0, adapt_cutoff=0.0, decr_f=0.75, minh=1e-90), 1.0,
                      [([1.0], [4 * _E])] * 60, (51, "MaxLoopsExceeded")),
    "51 rejections to below minh": (dict(epsilon=_E, safety_f=1.0, adapt_cutoff=0.0, decr_f=0.75, minh=2.0 ** -49), 1.0,
                      [([1.0], [4 * _E])] * 60, (50, "MinimumStepReached")),
}

_R = dict(epsilon=_E, safety_f=1.0, adapt_cutoff=0.0, decr_f=0.75, minh=1e-90)
_N = [([math.nan], [_E])]
for _k in (10, 300):            # the attempt limit holds whatever the size of the step
    EXACT[f"51 rejections of steps near 2^{_k}"] = (_R, 2.0 ** _k, [([1.0], [2 * _E])] * 60, (51, "MaxLoopsExceeded"))
    EXACT[f"accepted at 2^{_k}"] = (_R, 2.0 ** _k, [([1.0], [_E])], (1, 2.0 ** _k, 2.0 ** _k))
EXACT["51 NaN attempts"] = (_R, 1.0, _N * 60, (51, "MaxLoopsExceeded"))
EXACT["20 rejections, then NaN"] = (_R, 1.0, [([1.0], [2 * _E])] * 20 + _N * 40, (51, "MaxLoopsExceeded"))
EXACT["20 NaN, then rejections"] = (_R, 1.0, _N * 20 + [([1.0], [2 * _E])] * 40, (51, "MaxLoopsExceeded"))
EXACT["50 NaN, then accepted"] = (_R, 1.0, _N * 50 + [([1.0], [_E])] * 9, (51, 2.0 ** -100, 2.0 ** -100))
_W = math.sqrt(0.5) * (1 + 1j)
_Q = dict(epsilon=_E, safety_f=1.0, adapt_cutoff=0.5, decr_f=0.75, minh=1e-9)
for _k, (_u, _e, _w) in {
        "complex above": ([1.0, 0.6 * _W], [_E, 9.0], (2, 0.25, 0.25)), "complex below": ([_W, 0.4], [_E, 9.0], (1, 1.0, 1.0)),
        "imaginary above": ([1.0, 0.6j], [_E, 9.0], (2, 0.25, 0.25)), "imaginary below": ([1j, 0.4], [_E * 1j, 9.0], (1, 1.0, 1.0)),
        "negative above": ([1.0, -0.6], [_E, 9.0], (2, 0.25, 0.25)), "negative below": ([-1.0, 0.4], [_E, 9.0], (1, 1.0, 1.0)),
        "l1 below": ([1.0, 0.45 * _W], [_E, 9.0], (1, 1.0, 1.0)), "tiny state": ([1e-100, 0.4e-100], [_E * 1e-100, 9.0], (1, 1.0, 1.0)),
        "large state": ([1e100, 0.6e100], [_E, 9.0e100], (2, 0.25, 0.25))}.items():
    EXACT["cutoff " + _k] = (_Q, 1.0, [(_u, _e), ([1.0, 0.0], [_E, 0.0])], _w)
for _d in (1e-3, 1e-6, 1e-8, 1e-10, 1e-12):
    EXACT[f"s=1-{_d:g}"] = (dict(epsilon=_E, safety_f=1.0, adapt_cutoff=0.0, decr_f=0.75, minh=1e-9), 1.0,
                            [([1.0], [_E / (1 - _d) ** 2]), ([1.0], [_E])], (2, 0.75, 0.75))
    EXACT[f"s=1+{_d:g}"] = (dict(epsilon=_E, safety_f=1.0, adapt_cutoff=0.0, decr_f=0.75, minh=1e-9, incr_f=1.25), 1.0,
                            [([1.0], [_E / (1 + _d) ** 2]), ([1.0], [_E])], (1, 1.0, 1.0))
    EXACT[f"s=incr_f-{_d:g}"] = (dict(epsilon=_E, safety_f=1.0, adapt_cutoff=0.0, decr_f=0.75, minh=1e-9, incr_f=2.0), 1.0,
                                 [([1.0], [_E / (2 - 2 * _d) ** 2])], (1, 1.0, 1.0))
    EXACT[f"s=incr_f+{_d:g}"] = (dict(epsilon=_E, safety_f=1.0, adapt_cutoff=0.0, decr_f=0.75, minh=1e-9, incr_f=2.0), 1.0,
                                 [([1.0], [_E / (2 + 2 * _d) ** 2])], (1, 1.0, 2 + 2 * _d))
for _k in (4, 8, 12):
    EXACT[f"decr_f=2^-{_k}"] = (dict(_R, decr_f=2.0 ** -_k), 1.0, [([1.0], [4 * _E]), ([1.0], [_E])], (2, 2.0 ** -_k, 2.0 ** -_k))
EXACT["NaN to below minh"] = (dict(_R, minh=0.375), 1.0, [([math.nan], [_E]), ([1.0], [_E])], (1, "MinimumStepReached"))
EXACT["NaN to minh"] = (dict(_R, minh=0.25), 1.0, [([math.nan], [_E]), ([1.0], [_E])], (2, 0.25, 0.25))
for _n in (1500, 70000):        # wide states: few, many, and equal components above the cutoff
    EXACT[f"{_n} components, one above"] = (_Q, 1.0, [([1.0] + [0.25] * (_n - 1), [_E] + [9.0] * (_n - 1))], (1, 1.0, 1.0))
    EXACT[f"{_n} components, small ones"] = (_Q, 1.0, [([1.0] + [1e-6] * (_n - 1), [_E] + [9.0] * (_n - 1))], (1, 1.0, 1.0))
    EXACT[f"{_n} components, last above"] = (_Q, 1.0, [([1.0] + [0.25] * (_n - 2) + [0.75], [0.0] + [9.0] * (_n - 2) + [1.25 * _E])], (1, 1.0, 1.0))
    EXACT[f"{_n} components, last rejected"] = (_Q, 1.0, [([1.0] + [0.25] * (_n - 2) + [0.75], [0.0] * (_n - 1) + [9.0]),
                                                         ([1.0] + [0.25] * (_n - 1), [_E] + [0.0] * (_n - 1))], (2, 0.25, 0.25))
for _k in (-60, -40, 40, 60):   # the control depends on the error relative to the state only, also for extreme tolerances
    EXACT[f"state scaled by 2^{_k}"] = (_Q, 1.0, [([2.0 ** _k, 2.0 ** (_k - 2)], [_E * 2.0 ** _k, 9.0 * 2.0 ** _k])], (1, 1.0, 1.0))
    EXACT[f"rejected state scaled by 2^{_k}"] = (_Q, 1.0, [([2.0 ** _k, 2.0 ** _k], [9.0 * 2.0 ** _k, 0.0]), ([1.0, 0.0], [_E, 0.0])], (2, 0.25, 0.25))
for _k in (60, 100, 160):
    EXACT[f"epsilon 2^-{_k}, accepted"] = (dict(_Q, epsilon=2.0 ** -_k), 1.0, [([1.0, 0.25], [2.0 ** -_k, 9.0])], (1, 1.0, 1.0))
    EXACT[f"epsilon 2^-{_k}, rejected"] = (dict(_Q, epsilon=2.0 ** -_k, decr_f=0.75), 1.0,
                                           [([1.0, 0.25], [4 * 2.0 ** -_k, 9.0]), ([1.0, 0.25], [2.0 ** -_k, 9.0])], (2, 0.5, 0.5))


def run_exact(case):
    c, h, script, want = EXACT[case["name"]]
    s = mock_as(2, lambda i, u, h: (np.array(script[i][0]), np.array(script[i][1])), sconfig(**c))
    try:
        with np.errstate(all="ignore"):
            r = s.step(np.ones(len(script[0][0])), h)
        got = (len(s.rec), float(r[1]), float(r[2]))
        if not np.array_equal(r[0], np.array(script[len(s.rec) - 1][0])):
            return f"{case['name']}: returned {r[0]!r}"
    except s.SolverError as e:
        got = (len(s.rec), type(e).__name__)
    if len(got) == 3 and len(want) == 3 and got[0] == want[0] and all(abs(a - b) <= 1e-14 * abs(b) for a, b in zip(got[1:], want[1:])):
        return None
    return None if got == want else f"{case['name']}: (attempts, h used, h suggested | exception) = {got}, expected {want}"


def gen_ctl(rng, tier):
    k = 60 if tier == "quick" else 1200
    modes = ["mixed", "reject", "accept", "rejfirst", "manyrej", "bad", "flat"]
    for name in EXACT:
        yield dict(kind="exact", name=name)
    for i, s in enumerate(seeds(rng, k)):
        g = np.random.default_rng(s)
        yield dict(kind="mock", seed=s, mode=modes[i % len(modes)], q=int(g.integers(2, 7)), cfg=rand_cfg(g),
                   h=float(10.0 ** g.uniform(-3, 1)))
    for i, s in enumerate(seeds(rng, 16 if tier == "quick" else 200)):
        g = np.random.default_rng(s)
        name, rep = [x for x in SPECS if x[0] in AS][i % 10]
        yield dict(kind="real", seed=s, name=name, rep=rep, h=float(10.0 ** g.uniform(-2.5, -0.3)),
                   cfg=dict(epsilon=float(10.0 ** g.uniform(-9, -3)), safety_f=float(g.uniform(0.5, 1)),
                            adapt_cutoff=float(g.uniform(0, 0.3)), decr_f=float(g.uniform(0.4, 0.95)),
                            incr_f=float(g.uniform(1.05, 3))))


def _run_ctl(case):
    """-> (list of attempts, outcome, cfg, q, steps) for a few consecutive step calls"""
    cfg = sconfig(**case["cfg"])
    if case["kind"] == "mock":
        q = case["q"]
        s = mock_as(q, ctl_script(case["seed"], case["mode"], q, cfg), cfg)
        rec = s.rec
        u = np.ones(5, complex)
    else:
        q = QORD[case["name"]]
        p = Problem(case["seed"], case["rep"], scale=0.4)
        s = make(case["name"], case["rep"], p.L, p.nl, config=cfg, loglevel="CRITICAL")
        rec = spy(s)
        u = p.u0.astype(complex)
    out = []
    h = case["h"]
    for _ in range(4):
        a = len(rec)
        try:
            r = s.step(u, h)
        except s.SolverError as e:
            out.append((np.array(u), h, rec[a:], e))
            break
        out.append((np.array(u), h, rec[a:], r))
        u, h = r[0], r[2]
        if not np.all(np.isfinite(u)):
            break
    return s, cfg, q, out


def near(s, v):
    return abs(s - v) <= 1e-9 * max(1.0, abs(v))


def run_C04(case):
    if case["kind"] == "exact":
        return run_exact(case)
    sv, cfg, q, out = _run_ctl(case)
    for (u, h, att, r) in out:
        ss = [expected_s(cfg, q, a[2], a[3]) for a in att]
        if any(math.isfinite(x) and near(x, 1.0) for x in ss):
            return None
        for j, x in enumerate(ss):
            ok = math.isfinite(x) and x >= 1
            last = j == len(ss) - 1
            if ok and not last:
                return f"attempt {j} with s={x!r} (finite, >=1) was not accepted"
            if last and ok and isinstance(r, Exception):
                return f"attempt with s={x!r} raised {type(r).__name__}"
            if last and not ok and not isinstance(r, Exception):
                return f"attempt {j} with s={x!r} was accepted"
        if isinstance(r, Exception):
            continue
        if not np.array_equal(r[0], att[-1][2], equal_nan=True):
            return "step returned a state that is not the one of the accepted attempt"
        if r[1] != att[-1][1]:
            return f"step reported h={r[1]!r} but the accepted attempt used {att[-1][1]!r}"
        for j, a in enumerate(att):
            if not np.array_equal(a[0], u, equal_nan=True):
                return f"attempt {j} did not start from the given state"
    return None


def run_C05(case):
    if case["kind"] == "exact":
        return run_exact(case)
    sv, cfg, q, out = _run_ctl(case)
    for (u, h, att, r) in out:
        if len(att) > 51:
            return f"{len(att)} attempts in one step"
        if not att:
            return "no attempt made"
        if att[0][1] != h:
            return f"first attempt used {att[0][1]!r}, not the suggested {h!r}"
        ss = [expected_s(cfg, q, a[2], a[3]) for a in att]
        if any(math.isfinite(x) and (near(x, 1.0) or near(x, cfg.incr_f)) for x in ss):
            return None

        def nxt(x, hh):
            if not math.isfinite(x):
                return 0.25 * hh
            return min(max(x, 0.25), cfg.decr_f) * hh
        for j in range(len(att) - 1):
            e = nxt(ss[j], att[j][1])
            if abs(att[j + 1][1] - e) > 1e-12 * abs(e):
                return f"attempt {j} rejected with s={ss[j]!r}, h={att[j][1]!r}: retried with {att[j+1][1]!r}, expected {e!r}"
            if not np.array_equal(att[j + 1][0], u, equal_nan=True):
                return f"attempt {j+1} was not made from the same state"
            if att[j + 1][1] < cfg.minh * (1 - 1e-12):
                return f"attempt made with h={att[j+1][1]!r} below minh={cfg.minh!r}"
        x = ss[-1]
        if isinstance(r, Exception):
            e = nxt(x, att[-1][1])
            if isinstance(r, sv.MaxLoopsExceeded):
                if len(att) != 51:
                    return f"MaxLoopsExceeded after {len(att)} attempts"
            elif isinstance(r, sv.MinimumStepReached):
                if not e < cfg.minh * (1 + 1e-12):
                    return f"MinimumStepReached although the next step size would be {e!r} >= minh={cfg.minh!r}"
            else:
                return f"undocumented exception {r!r}"
        else:
            if not math.isfinite(x):
                continue
            hs = att[-1][1]
            e = min(x, 4.0) * hs if min(x, 4.0) > cfg.incr_f else hs
            if abs(r[2] - e) > 1e-12 * e:
                return f"accepted with s={x!r}, h={hs!r}, incr_f={cfg.incr_f!r}: suggested {r[2]!r}, expected {e!r}"
    return None


# ---------------------------------------------------------------- C01 / C03
INTERVALS = [(0.0, 1.0), (-1.0, 0.0), (-0.7, 0.1), (0.0, 1e-3), (1e6, 1e6 + 1), (-3.5, -1.25), (0.1, 0.3), (1e-8, 3e-8),
             (-0.3, 0.3), (5, 7), (0.0, 12345678.9), (-2e8, 0.25)]


def run_many(case):
    """a long run of cheap steps: state k is k+1 exactly, every step is accepted at the same size"""
    n, sf, c = case["n"], case["sf"], case["pw"]
    h = 2.0 ** -17
    if case["as"]:
        from rkstiff.solveras import BaseSolverAS as B
        step = lambda self, u, h: (u + 1, np.array([1e-5 * abs(u[0])]))
    else:
        from rkstiff.solvercs import BaseSolverCS as B
        step = lambda self, u, h: u + 1
    M = type("Many", (B,), {"_reset": lambda self: None, "_q": lambda self: 4, "_update_stages": step})
    s = M(np.zeros(1), lambda u: u, loglevel="CRITICAL", **(dict(config=sconfig(epsilon=1e-4, incr_f=1e6)) if case["as"] else {}))
    t0 = c * 1.0
    kw = dict(h_init=h) if case["as"] else dict(h=h)
    r = s.evolve(np.ones(1), t0, t0 + n * h, store_freq=sf, **kw)
    if r[0] != n + 1:
        return f"{n} steps of size {h!r} expected, {r[0] - 1:g} were taken"
    if len(s.t) != n // sf + 1 or len(s.u) != len(s.t):
        return f"{len(s.t)} times and {len(s.u)} states stored for {n} steps, store_freq={sf}"
    for j, (t, u) in enumerate(zip(s.t, s.u)):
        if t != t0 + j * sf * h or u[0] != j * sf + 1 or u.dtype != np.float64:
            return f"snapshot {j} (store_freq={sf}) is state {u!r} at t={t!r}, expected state {j * sf} at {t0 + j * sf * h!r}"
    return None




def gen_C01(rng, tier):
    yield {"kind": "many", "n": 131072, "sf": 1, "pw": 0, "as": True}
    k = 80 if tier == "quick" else 2500
    for i, s in enumerate(seeds(rng, k)):
        g = np.random.default_rng(s)
        t0, tf = INTERVALS[i % len(INTERVALS)]
        if g.random() < 0.5:
            t0 = float(g.normal() * 10.0 ** g.integers(-2, 3))
            tf = t0 + float(10.0 ** g.uniform(-2, 2))
        mode = ["accept", "mixed", "flat", "rejfirst"][int(g.integers(4))]
        hi = None if g.random() < 0.4 else float((tf - t0) * 10.0 ** g.uniform(-2, 0.5))
        if g.random() < 0.3:
            hi = float((tf - t0) / int(g.integers(1, 40)))
        yield dict(kind="mock", seed=s, mode=mode, q=4, t0=t0, tf=tf, h=hi, cfg=rand_cfg(g),
                   log=str(g.choice(["CRITICAL", "DEBUG"])))
    for i, s in enumerate(seeds(rng, 24 if tier == "quick" else 400)):
        d = (3e-2, 3e-3, 5e-4, 1e-6, 1e-9, 1e-11)[i % 6]
        t0, tf = INTERVALS[i % len(INTERVALS)]
        yield dict(kind="mock", seed=s, mode="slightrej", q=4, t0=t0, tf=tf, h=[None, tf - t0, (tf - t0) / 3][i % 3],
                   cfg=dict(epsilon=1e-4, decr_f=1 - d), log="CRITICAL")
    for i, s in enumerate(seeds(rng, 14 if tier == "quick" else 150)):
        g = np.random.default_rng(s)
        name, rep = [x for x in SPECS if x[0] in AS][i % 10]
        t0, tf = INTERVALS[i % len(INTERVALS)]
        if tf - t0 > 2:
            tf = t0 + 1
        yield dict(kind="real", seed=s, name=name, rep=rep, t0=t0, tf=tf, h=float((tf - t0) * g.uniform(0.02, 0.5)),
                   cfg=dict(epsilon=float(10.0 ** g.uniform(-6, -3))))
    for t0, tf in [(1.0, 1.0), (2.0, 1.0), (0, 0), (0.0, -1.0)]:
        yield dict(kind="none", seed=1, t0=t0, tf=tf, h=0.1, cfg={})
        yield dict(kind="none", seed=1, t0=t0, tf=tf, h=None, cfg={})
    yield dict(kind="if34", seed=0, t0=0.0, tf=1.0, h=0.1, cfg=dict(epsilon=4.64e-6))


def _as_for(case):
    cfg = sconfig(**case["cfg"])
    if case["kind"] in ("mock", "none"):
        s = mock_as(case.get("q", 4), ctl_script(case["seed"], case.get("mode", "accept"), case.get("q", 4), cfg), cfg,
                    case.get("log", "CRITICAL"))
        return s, s.rec, np.ones(5, complex)
    if case["kind"] == "if34":
        s = make("IF34", "diag", np.zeros(3), lambda u: -u, config=cfg, loglevel="CRITICAL")
        return s, spy(s), np.ones(3)
    p = Problem(case["seed"], case["rep"], scale=0.4, nlscale=0.5)
    s = make(case["name"], case["rep"], p.L, p.nl, config=cfg, loglevel="CRITICAL")
    return s, spy(s), p.u0.astype(complex)


def accepted(rec, final):
    """indices of the accepted attempts, from how states are threaded"""
    acc = []
    for j, a in enumerate(rec):
        nx = rec[j + 1][0] if j + 1 < len(rec) else final
        if np.array_equal(nx, a[2], equal_nan=True):
            acc.append(j)
        elif not np.array_equal(nx, a[0], equal_nan=True):
            return j
    return acc


def run_C01(case):
    if case["kind"] == "many":
        return run_many(case)
    s, rec, u0 = _as_for(case)
    t0, tf, h = case["t0"], case["tf"], case["h"]
    steps = spy_step(s)
    u0c = u0.copy()
    try:
        r = s.evolve(u0, t0, tf, h_init=h)
    except s.SolverError as e:
        if case["kind"] == "if34" or case.get("mode") in ("accept", "flat"):
            return f"evolve raised {type(e).__name__} although every attempt meets the tolerance"
        return None
    if t0 >= tf:
        if rec:
            return "a step was taken although tf <= t0"
        if r is not u0 and not np.array_equal(r, u0c):
            return "initial state not returned"
        return None
    acc = accepted(rec, r)
    if isinstance(acc, int):
        return f"attempt {acc + 1} started from a state that is neither the previous state nor the accepted one"
    t = s.t
    if len(t) != len(acc) + 1:
        return f"{len(acc)} accepted steps but {len(t)} stored times"
    if t[0] != t0:
        return "first stored time is not t0"
    if t[-1] != tf:
        return f"evolution ended at {t[-1]!r}, not at tf={tf!r}"
    tau = Fr(t0)
    mx = max(abs(t0), abs(tf))
    for k in range(1, len(t)):
        if t[k] > tf:
            return f"time {t[k]!r} beyond tf={tf!r}"
        if t[k] < t[k - 1]:
            return f"time decreases from {t[k-1]!r} to {t[k]!r}"
        tau += Fr(float(rec[acc[k - 1]][1]))
        if abs(Fr(float(t[k])) - tau) > Fr(2.0**-51) * (k + 1) * Fr(mx):
            return f"time after step {k} is {t[k]!r} but the accepted steps sum to {float(tau)!r}"
        if not np.array_equal(s.u[k], rec[acc[k - 1]][2]):
            return f"snapshot {k} is not the state of accepted step {k}"
    if len(steps) == len(acc):
        for k in range(1, len(steps)):
            hs = steps[k - 1][2][2]
            hk = steps[k][1]
            rem = tf - t[k]
            if hk != hs and hk != rem:
                return f"step {k} was started with h={hk!r}: neither the suggested {hs!r} nor the remainder {rem!r}"
            if hk > hs * (1 + 0.02):
                return f"step {k} was started with h={hk!r}, larger than the suggested {hs!r}"
        if steps and h is not None and steps[0][1] not in (h, tf - t0):
            return f"first step used {steps[0][1]!r}, not h_init={h!r}"
        if steps and h is not None and steps[0][1] > h * (1 + 0.02):
            return f"first step used {steps[0][1]!r}, larger than h_init={h!r}"
    return None


def gen_C03(rng, tier):
    for a in (True, False):
        for n, sf in ((20000, 1), (33000, 7), (12001, 12000), (9999, 10000), (131080, 100000)):
            yield {"kind": "many", "n": n, "sf": sf, "pw": -1, "as": a}
    for i, kind in enumerate(ODD):
        for cs in (True, False):
            if not cs and kind in ("nan", "inf", "zero"):
                continue
            for int0 in (False, True):
                yield dict(kind="odd", state=kind, cs=cs, sf=[2, 3, 5][i % 3], int0=int0, h=0.03125, seed=i)
    for sf in (1001, 1500, 2100, 5000):
        yield dict(kind="cs", seed=1, t0=0.0, tf=4.0, h=0.001953125, sf=sf, pre=False, log="CRITICAL")
        yield dict(kind="mock", seed=2, mode="flat", q=4, t0=0.0, tf=1.0, h=1 / 2048, cfg=dict(epsilon=1e-4), sf=sf, pre=False, log="CRITICAL")
    k = 40 if tier == "quick" else 600
    for i, s in enumerate(seeds(rng, k)):
        g = np.random.default_rng(s)
        t0, tf = INTERVALS[i % len(INTERVALS)]
        sf = int(g.choice([1, 2, 3, 5, 7, 100, 1000]))
        if i % 2:
            n = int(g.choice([1, 2, 3, 4, 10, 99, 100, 101, 250]))
            yield dict(kind="cs", seed=s, t0=t0, tf=tf, h=(tf - t0) / n * (1 + float(g.choice([0, 0, -1e-3]))), sf=sf,
                       pre=bool(g.integers(2)), log=str(g.choice(["CRITICAL", "DEBUG", "INFO"])))
        else:
            yield dict(kind="mock", seed=s, mode=["flat", "accept", "mixed"][i % 3], q=4, t0=t0, tf=tf,
                       h=float((tf - t0) / g.choice([1, 3, 30, 150])), cfg=dict(epsilon=1e-4), sf=sf,
                       pre=bool(g.integers(2)), log=str(g.choice(["CRITICAL", "DEBUG", "INFO"])))


def odd_states(solver, kind, seed):
    """make the solver's steps return states of an unusual kind"""
    g = np.random.default_rng(seed)
    vals = g.normal(size=(4000, 3))
    rec = solver.rec

    def state(i):
        v = vals[i % 4000]
        if kind == "nan" and i % 3 == 1:
            return v * np.array([1.0, math.nan, 1.0])
        if kind == "inf" and i % 3 == 1:
            return v * np.array([1.0, math.inf, 1.0])
        if kind == "complex":
            return v + 1j * vals[(i + 7) % 4000]
        if kind == "tinyimag":
            return v + 1e-17j * vals[(i + 7) % 4000]
        if kind == "zero" and i % 3 == 1:
            return v * 0.0
        if kind == "same":
            return vals[0] * 1.0
        if kind == "huge":
            return v * 1e100
        if kind == "tiny":
            return v * 1e-100
        return v * 1.0

    def stages(u, h):
        r = state(len(rec))
        rec.append((np.array(u), h, np.array(r), np.zeros(3)))
        if solver_as:
            return r, 1e-13 * np.abs(r) + 0.0
        return r
    solver_as = hasattr(solver, "_q")
    solver._update_stages = stages


ODD = ["nan", "inf", "complex", "tinyimag", "zero", "same", "huge", "tiny"]


def run_odd(case):
    for sf in (1, case["sf"]):
        s = mock_cs() if case["cs"] else mock_as(4, None, sconfig(epsilon=1e-4, adapt_cutoff=0.01, incr_f=1e6))
        odd_states(s, case["state"], case["seed"])
        u0 = np.array([1, 2, 3]) if case["int0"] else np.array([1.0, 2.0, 3.0])
        try:
            with np.errstate(all="ignore"):
                r = s.evolve(u0, 0.0, 1.0, **({"h": case["h"]} if case["cs"] else {"h_init": case["h"]}), store_freq=sf)
        except RuntimeError:
            return None
        if case["cs"]:
            st = [a[2] for a in s.rec]
        else:
            # every attempt of these scripts is accepted
            st = [a[2] for a in s.rec]
        want = [u0] + st[sf - 1::sf]
        if len(s.t) != len(want) or len(s.u) != len(want):
            return f"{len(s.t)} times and {len(s.u)} states stored, expected {len(want)} ({len(st)} steps, store_freq={sf})"
        for k, (a, b) in enumerate(zip(s.u, want)):
            if np.shape(a) != np.shape(b) or not np.array_equal(a, b, equal_nan=True):
                return f"snapshot {k} is {a!r}, the state after that step was {b!r}"
        if not np.array_equal(r, st[-1], equal_nan=True):
            return f"returned state {r!r} is not the last one {st[-1]!r}"
    return None


def run_C03(case):
    if case["kind"] == "many":
        return run_many(case)
    if case["kind"] == "odd":
        return run_odd(case)

    def go(sf=None, store=True):
        if case["kind"] == "cs":
            s = mock_cs(case["log"])
            u0 = np.array([1.0, 2.0, 3.0])
        else:
            s, _, u0 = _as_for(case)
        if case["pre"]:
            try:
                if case["kind"] == "cs":
                    s.evolve(u0, 0.0, 1.0, 0.25)
                else:
                    s.evolve(u0, 0.0, 1.0, h_init=0.25)
            except Exception:  # noqa: BLE001
                pass
            s.rec.clear()
        kw = dict(store_data=store)
        if sf is not None:
            kw["store_freq"] = sf
        try:
            if case["kind"] == "cs":
                r = s.evolve(u0, case["t0"], case["tf"], case["h"], **kw)
            else:
                r = s.evolve(u0, case["t0"], case["tf"], h_init=case["h"], **kw)
        except RuntimeError:
            return None
        return s, r, u0
    full = go(1)
    if full is None:
        return None
    s1, r1, u0 = full
    if case["kind"] == "cs":
        pairs = [a[2] for a in s1.rec]
    else:
        acc = accepted(s1.rec, r1)
        if isinstance(acc, int):
            return None
        pairs = [s1.rec[j][2] for j in acc]
    if len(s1.t) != len(pairs) + 1 or len(s1.u) != len(pairs) + 1:
        return f"store_freq=1 stored {len(s1.t)} times and {len(s1.u)} states for {len(pairs)} steps"
    if s1.t[0] != case["t0"] or not np.array_equal(s1.u[0], u0):
        return "first snapshot is not (t0, initial state)"
    for k, p in enumerate(pairs):
        if not np.array_equal(s1.u[k + 1], p):
            return f"snapshot {k+1} is not the state after step {k+1}"
    for sf in (case["sf"], None):
        got = go(sf)
        s, r, _ = got
        f = 1 if sf is None else sf
        et = [s1.t[0]] + s1.t[1:][f - 1::f]
        eu = [s1.u[0]] + s1.u[1:][f - 1::f]
        if list(s.t) != list(et):
            return f"store_freq={sf}: times {list(s.t)[:6]}... expected {list(et)[:6]}... ({len(s.t)} vs {len(et)})"
        if len(s.u) != len(eu) or any(not np.array_equal(a, b) for a, b in zip(s.u, eu)):
            return f"store_freq={sf}: wrong stored states"
        if not np.array_equal(r, r1):
            return f"store_freq={sf} changes the returned state"
    s, r, _ = go(case["sf"], store=False)
    if len(s.t) or len(s.u):
        return "store_data=False stored snapshots"
    if not np.array_equal(r, r1):
        return "store_data=False changes the returned state"
    return None


# ---------------------------------------------------------------- C02
def gen_C02(rng, tier):
    yield {"kind": "many", "n": 131072, "sf": 1, "pw": 0, "as": False}
    k = 250 if tier == "quick" else 8000
    for i, s in enumerate(seeds(rng, k)):
        g = np.random.default_rng(s)
        mode = int(g.integers(6))
        if mode == 0:
            t0, tf = INTERVALS[int(g.integers(len(INTERVALS)))]
        else:
            t0 = float(np.round(g.normal() * 10.0 ** g.integers(-1, 3), int(g.integers(0, 4))))
            tf = float(np.round(t0 + 10.0 ** g.uniform(-1, 2), int(g.integers(1, 4))))
            if g.random() < 0.2:
                t0, tf = -(tf - t0), 0.0
        if not tf > t0:
            continue
        n = int(g.choice([1, 2, 3, 7, 10, 49, 99, 100, 101, 200, 333, 1000]))
        h = (tf - t0) / n
        if mode in (2, 3):
            h = float(np.format_float_scientific(h, precision=2, trim="0"))
        if mode == 4:
            h = float((tf - t0) * g.uniform(0.01, 1.5))
        if mode == 5:
            h = float((tf - t0) * (1 + g.choice([1e-6, -1e-6, 1e-3, -1e-3, 0.3, 1e-10])))
        if mode == 1:                   # slightly more or less than a whole number of steps
            h = float((tf - t0) / (n + g.choice([1, -1]) * 10.0 ** -g.uniform(4, 13)))
        if not h > 0:
            continue
        yield dict(t0=t0, tf=tf, h=h, log=str(g.choice(["CRITICAL", "INFO"])), store=bool(g.integers(4) > 0))
    yield dict(t0=-1.0, tf=0.0, h=0.005, log="INFO", store=True)
    for d in (1e-9, 1e-10, 1e-11, 1e-12, 1e-13):
        for n in (1, 7, 300):
            for t0 in (0.0, -1.0, 0.001):
                for sg in (1, -1):
                    yield dict(t0=t0, tf=t0 + 0.875, h=0.875 / (n + sg * d), log="CRITICAL", store=True)
    for h in (1e-9, 1e-15, 1e9, 1e200, 1e-200):
        yield dict(t0=0.0, tf=12.5 * h, h=h, log="CRITICAL", store=True)
    yield dict(t0=0.0, tf=70.0, h=0.001, log="CRITICAL", store=False, long=True)
    yield dict(t0=0.5, tf=17.5, h=0.001, log="CRITICAL", store=True, long=True)
    for i, s in enumerate(seeds(rng, 6)):
        name, rep = [x for x in SPECS if x[0] not in AS][i]
        yield dict(t0=0.1, tf=0.7, h=0.1, log="CRITICAL", store=True, real=[name, rep], seed=s)


def run_C02(case):
    if case.get("kind") == "many":
        return run_many(case)
    t0, tf, h = case["t0"], case["tf"], case["h"]
    eps = 2.0**-52
    M = Fr(max(abs(t0), abs(tf)))
    ratio = (Fr(tf) - Fr(t0)) / Fr(h)
    near_int = abs(ratio - round(ratio)) * Fr(h) <= 3 * Fr(eps) * M
    clear = abs(ratio - round(ratio)) * Fr(h) >= 64 * Fr(eps) * M
    if not (near_int or clear):
        return None
    n = round(ratio) if near_int else math.ceil(ratio)
    too_big = ratio < 1 and not near_int
    if not too_big and n > 3000 and not case.get("long"):
        return None
    if "real" in case:
        p = Problem(case["seed"], case["real"][1], scale=0.4)
        s = make(case["real"][0], case["real"][1], p.L, p.nl, loglevel="CRITICAL")
        rec, u0 = [], p.u0.astype(complex)
        orig = s._update_stages

        def w(u, hh):
            r = orig(u, hh)
            rec.append((np.array(u), hh, np.array(r)))
            return r
        s._update_stages = w
    else:
        s = mock_cs(case["log"])
        rec, u0 = s.rec, np.array([1.0, 2.0, 3.0])
    try:
        r = s.evolve(u0, t0, tf, h, store_data=case["store"])
    except ValueError as e:
        if not too_big:
            return f"ValueError({e}) although h={h!r} <= tf-t0={tf - t0!r}"
        if rec:
            return "a step was taken before ValueError"
        return None
    except Exception as e:  # noqa: BLE001
        return f"evolve raised {type(e).__name__}: {e}"
    if too_big:
        return f"no ValueError although h={h!r} > tf-t0={tf - t0!r}"
    if len(rec) != n:
        return f"{len(rec)} steps, expected {n}"
    prev = u0
    for k, a in enumerate(rec):
        if not np.array_equal(a[0], prev):
            return f"step {k} did not start from the state the previous step returned"
        if a[1] != h:
            return f"step {k} used h={a[1]!r} instead of {h!r}"
        prev = a[2]
    if not np.array_equal(r, prev):
        return "returned state is not the one of the last step"
    if case["store"]:
        if len(s.t) != n + 1:
            return f"{len(s.t)} stored times for {n} steps"
        for k, t in enumerate(s.t):
            if abs(Fr(float(t)) - (Fr(t0) + k * Fr(h))) > 4 * Fr(eps) * (M + Fr(h)):
                return f"time {k} is {t!r}, expected t0+k*h = {float(Fr(t0) + k * Fr(h))!r}"
    return None


ORACLES = {"C01": (gen_C01, run_C01), "C02": (gen_C02, run_C02), "C03": (gen_C03, run_C03),
           "C04": (gen_ctl, run_C04), "C05": (gen_ctl, run_C05)}
