"""Concrete oracles for the schemes: C09 order, C10 estimate order, C11 stiff exactness, C12 representations, C13 settings."""
import json
import math
import os
from fractions import Fraction
import numpy as np
from scipy.linalg import expm
from common import (SPECS, AS, CS, ETD, ORDER, QORD, Problem, make, is_as, sconfig, econfig, seeds, same, gbs, relerr)

CNODES = {"IF4": [0.5, 1.0], "IF34": [0.5, 1.0], "ETD4": [0.5, 1.0], "ETD34": [0.5, 1.0],
          "ETD5": [0.25, 0.5, 0.75, 1.0], "ETD35": [0.25, 0.5, 0.75, 1.0],
          "IF45DP": [0.2, 0.3, 0.8, 8 / 9, 1.0]}


def one(name, rep, L, nl, u, h, ec=None):
    """first attempt of a fresh solver: (unew, err or None)"""
    s = make(name, rep, L, nl, etd_config=ec, loglevel="CRITICAL")
    r = s._update_stages(u, h)
    return r if is_as(name) else (r, None)


# ------------------------------------------------------------------ C09 / C10
def gen_order(names):
    def gen(rng, tier):
        reps = [x for x in SPECS if x[0] in names]
        k = 14 if tier == "quick" else 60
        for name, rep in reps:
            for i, s in enumerate(seeds(rng, k)):
                if rep == "full" and i % 2:
                    yield dict(name=name, rep=rep, seed=s - s % 11 + [2, 5, 3, 7, 4, 6][i // 2 % 6], pk="cplx")
                    continue
                yield dict(name=name, rep=rep, seed=s, pk=["cplx", "real"][s % 2] if rep != "eig" else "cplx")
            for i, s in enumerate(seeds(rng, 4 if tier == "quick" else 20)):    # operators of other types than complex
                yield dict(name=name, rep=rep, seed=s, pk=["cplx", "real"][s % 2], dt=["int", "real"][i % 2])
    return gen


def _known_trees():
    """K4 in known_findings.json: defects of the fifth-order conditions of ETD5/ETD35 that are recorded."""
    f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
    for k in json.load(open(f))["known"]:
        if k["id"] == "K4":
            return {t: float(Fraction(d)) for t, d in k["trees"].items()}
    return {}


def parse_tree(s):
    def go(i):
        c, i = s[i], i + 1
        ch = []
        if i < len(s) and s[i] == "[":
            i += 1
            while True:
                t, i = go(i)
                ch.append(t)
                if s[i] == ",":
                    i += 1
                    continue
                i += 1
                break
        return (c, tuple(ch)), i
    return go(0)[0]


def sigma(t):
    r = 1
    seen = {}
    for c in t[1]:
        seen[c] = seen.get(c, 0) + 1
        r *= sigma(c)
    for m in seen.values():
        r *= math.factorial(m)
    return r


def elementary(p, t, u):
    """elementary differential of the tree t (nodes L: linear operator, N: derivatives of the nonlinearity)"""
    ch = [elementary(p, c, u) for c in t[1]]
    if t[0] == "L":
        x = ch[0] if ch else u
        return p.L * x if p.L.ndim == 1 else p.L @ x
    if not ch:
        return p.nl(u)
    if len(ch) == 1:
        v = ch[0]
        return p.q1 @ v + np.einsum("ijk,j,k->i", p.q2, u, v) + np.einsum("ijk,j,k->i", p.q2, v, u) + p.q3 * u**2 * v
    if len(ch) == 2:
        v, w = ch
        return np.einsum("ijk,j,k->i", p.q2, w, v) + np.einsum("ijk,j,k->i", p.q2, v, w) + 2 * p.q3 * u * v * w
    raise ValueError(t)


def known_h5(p, u):
    d = 0
    for s, c in _known_trees().items():
        t = parse_tree(s)
        d = d + c / sigma(t) * elementary(p, t, u)
    return d


def _slopes(case, which):
    p = Problem(case["seed"], case["rep"], n=3, scale=0.9 if case["rep"] != "full" else 0.8, kind=case["pk"], nlscale=0.8)
    ec = econfig(modecutoff=0.9, contour_points=64, contour_radius=1.6) if case["name"] in ETD else None
    hs = [0.24, 0.16, 0.1, 0.07, 0.05, 0.03]
    es = []
    u0 = p.u0.astype(complex)
    for h in hs:
        un, er = one(case["name"], case["rep"], p.L, p.nl, u0, h, ec)
        kn = h**5 * known_h5(p, u0) if case["name"] in ("ETD5", "ETD35") and which == "u" else 0
        es.append(np.max(np.abs(un - p.exact(u0, h) - kn)) if which == "u" else np.max(np.abs(er)))
    out = []
    for i in range(len(hs) - 1):
        if es[i + 1] > 2e-12:
            out.append(math.log(es[i] / es[i + 1]) / math.log(hs[i] / hs[i + 1]))
    return out, es


def typed_run(case):
    """an operator stored as integers or reals takes the step of the same operator stored as complex numbers"""
    p = Problem(case["seed"], case["rep"], n=3, kind=case["pk"], nlscale=0.8)
    L, w, _ = typed_operator(np.random.default_rng(case["seed"]), 3, case["rep"], case["dt"])
    h, u0 = 0.3 / np.max(np.abs(w)), p.u0.astype(complex)
    for i in range(4):
        a, _ = one(case["name"], case["rep"], L, p.nl, u0, h / 2**i)
        b, _ = one(case["name"], case["rep"], L.astype(complex), p.nl, u0, h / 2**i)
        if relerr(a, b) <= 1e-8:
            return None
    return (f"{case['name']}/{case['rep']}: the step with the operator stored as {L.dtype} is off by {relerr(a, b):.2g} "
            f"relative at h={h / 8:.3g} and does not approach the one of the same operator stored as complex numbers")


def run_C09(case):
    if case.get("dt"):
        return typed_run(case)
    sl, es = _slopes(case, "u")
    p = ORDER[case["name"]]
    if len(sl) < 2:
        return None
    # dominated by a lower power of h on the smallest steps
    if max(sl[-2:]) < p + 0.55:
        # confirm on another problem, so that one unlucky constant cannot raise an alarm
        bad = 1
        for d in (11, 22):
            s2, _ = _slopes(dict(case, seed=case["seed"] + d), "u")
            if len(s2) >= 2 and max(s2[-2:]) < p + 0.55:
                bad += 1
        if bad >= 2:
            return (f"{case['name']}/{case['rep']}: one-step error decreases like h^{max(sl[-2:]):.2f} "
                    f"(errors {['%.2e' % e for e in es]}), advertised order needs h^{p + 1}")
    return None


def run_C10(case):
    sl, es = _slopes(case, "e")
    q = QORD[case["name"]]
    if len(sl) < 2:
        ok = es[0] < 1e-9
        return f"{case['name']}/{case['rep']}: error estimate vanishes ({es})" if ok else None
    if max(sl[-2:]) < q - 0.45 or min(sl[-2:]) > q + 0.45:
        bad = 1
        for d in (11, 22):
            s2, _ = _slopes(dict(case, seed=case["seed"] + d), "e")
            if len(s2) < 2 or max(s2[-2:]) < q - 0.45 or min(s2[-2:]) > q + 0.45:
                bad += 1
        if bad >= 2:
            return (f"{case['name']}/{case['rep']}: error estimate behaves like h^{max(sl[-2:]):.2f} "
                    f"({['%.2e' % e for e in es]}), controller assumes h^{q}")
    s = make(case["name"], case["rep"], np.ones(2) if case["rep"] == "diag" else np.eye(2) * 2, lambda u: u, loglevel="CRITICAL")
    if s._q() != q:
        return f"controller order is {s._q()}, the estimate has order {q}"
    if case["rep"] in ("eig", "full"):
        # the estimate is a vector in the same basis as the state: compare with the diagonal run in eigen-coordinates
        p = Problem(case["seed"], case["rep"], scale=0.5)
        w, S = np.linalg.eig(p.L)
        Si = np.linalg.inv(S)
        ec = econfig(modecutoff=0.9, contour_points=64, contour_radius=1.6) if case["name"] in ETD else None
        u0 = p.u0.astype(complex)
        _, e1 = one(case["name"], case["rep"], p.L, p.nl, u0, 0.3, ec)
        _, e2 = one(case["name"], "diag", w, lambda v: Si @ p.nl(S @ v), Si @ u0, 0.3, ec)
        if relerr(e1, S @ e2) > 1e-5:
            return f"{case['name']}/{case['rep']}: error estimate is not in the basis of the state (relative difference {relerr(e1, S @ e2):.2g})"
    return None


# ------------------------------------------------------------------ C11
def gen_C11(rng, tier):
    k = 60 if tier == "quick" else 400
    for name, rep in SPECS:
        for i, s in enumerate(seeds(rng, k)):
            g = np.random.default_rng(s)
            yield dict(name=name, rep=rep, seed=s, kind=["zero", "const"][i % 2],
                       scale=float(10.0 ** g.uniform(-3, 5)) if rep == "diag" else float(10.0 ** g.uniform(-2, 2)) if rep == "eig" else float(g.uniform(0.1, 3)),
                       h=float(10.0 ** g.uniform(-2, 0.3)), warm=bool(g.integers(2)))
        for i, s in enumerate(seeds(rng, 12 if tier == "quick" else 60)):     # operators of other types than complex
            yield dict(name=name, rep=rep, seed=s, kind=["zero", "const"][i % 2], dt=["int", "real"][i // 2 % 2], scale=1.0,
                       h=float(np.random.default_rng(s).uniform(0.02, 0.4)), warm=bool(i // 4 % 2))


def typed_operator(g, n, rep, dt):
    """an operator stored as integers or reals, its eigenvalues (not all real, for a matrix) and eigenvectors"""
    if rep == "diag":
        L = -g.integers(0, 6, n) if dt == "int" else -g.uniform(0, 5, n)
        L[0] = -1
        return L, L.astype(complex), np.eye(n)
    while True:
        A = g.integers(-2, 3, (n, n)) if dt == "int" else g.uniform(-1, 1, (n, n))
        w, S = np.linalg.eig(A)
        if np.linalg.cond(S) < 10 and np.linalg.cond(A) < 50 and np.max(np.abs(w.imag)) > 0.2:
            return A, w, S


def run_C11(case):
    name, rep = case["name"], case["rep"]
    g = np.random.default_rng(case["seed"])
    n = 4
    if case.get("dt"):
        L, w, S = typed_operator(g, n, rep, case["dt"])
        Si = np.linalg.inv(S)
    elif rep == "diag":
        damp = case["scale"] if case["seed"] % 2 else min(1.0, case["scale"])
        L = -np.abs(g.uniform(0, 1, n)) * damp + 1j * g.uniform(-1, 1, n) * case["scale"]
        L[0] = 0.0
        w, S, Si = L, np.eye(n), np.eye(n)
    else:
        w = -np.abs(g.uniform(0.2, 1, n)) * case["scale"] + 1j * g.uniform(-1, 1, n)
        while True:
            S = g.uniform(-1, 1, (n, n)) + 2 * np.eye(n)
            if case["seed"] % 3 == 0:                # not a real operator, but one of real trace
                S = S + 1j * g.uniform(-1, 1, (n, n))
            if np.linalg.cond(S) < 10:
                break
        if case["seed"] % 3 == 0:
            w = w - 1j * np.mean(w.imag)
        Si = np.linalg.inv(S)
        L = S @ np.diag(w) @ Si
    h = case["h"]
    if rep == "full" and name in ETD and np.max(np.abs(h * w)) > 0.5:
        h = 0.5 / np.max(np.abs(w))
    u = g.uniform(-1, 1, n) + 1j * g.uniform(-1, 1, n)
    F = np.zeros(n, complex) if case["kind"] == "zero" else g.uniform(-1, 1, n) + 0j
    args = []

    def nl(v):
        args.append(np.array(v))
        return F.copy()
    s = make(name, rep, L, nl, loglevel="CRITICAL")
    if case["warm"]:
        s._update_stages(u * 0.5, h * 0.7)
        s.reset()
    args.clear()
    r = s._update_stages(u, h)
    un, er = r if is_as(name) else (r, None)

    def fm(d):
        return S @ (d * (Si @ u))
    scale = max(np.max(np.abs(u)), np.max(np.abs(h * F)))
    if case["kind"] == "zero":
        ex = fm(np.exp(h * w))
        if np.max(np.abs(un - ex)) > 1e-9 * scale:
            return f"{name}/{rep}: with N=0 one step is not exp(hL)u: max difference {np.max(np.abs(un-ex)):.3g} (h={h!r})"
        if er is not None and np.max(np.abs(er)) > 1e-9 * scale:
            return f"{name}/{rep}: with N=0 the error estimate is {np.max(np.abs(er)):.3g}"
        found = set()
        for a in args:
            if np.max(np.abs(a - u)) <= 1e-12:
                continue
            hit = [c for c in CNODES[name] if np.max(np.abs(a - fm(np.exp(c * h * w)))) <= 1e-9 * scale]
            if not hit:
                return f"{name}/{rep}: a stage does not propagate u by exp(c h L) with a node c of the scheme"
            found.update(hit)
        miss = [c for c in CNODES[name] if c not in found]
        if miss:
            return f"{name}/{rep}: no stage at the nodes {miss}"
        return None
    if name in ETD:
        z = h * w
        phi = np.where(np.abs(z) < 1e-5, 1 + z / 2 + z * z / 6, np.expm1(z) / np.where(z == 0, 1, z))
        ex = S @ (np.exp(z) * (Si @ u) + h * phi * (Si @ F))
        if np.max(np.abs(un - ex)) > 1e-7 * scale:
            return f"{name}/{rep}: with constant N one step is not exact: max difference {np.max(np.abs(un-ex)):.3g} (h={h!r})"
        if er is not None and np.max(np.abs(er)) > 1e-7 * scale:
            return f"{name}/{rep}: with constant N the error estimate is {np.max(np.abs(er)):.3g}"
    return None


# ------------------------------------------------------------------ C12
def gen_C12(rng, tier):
    k = 60 if tier == "quick" else 400
    for name in AS + CS:
        if name == "IF45DP":
            continue
        for i, s in enumerate(seeds(rng, k)):
            g = np.random.default_rng(s)
            yield dict(name=name, seed=s, kind=["diagop", "matrix"][i % 2], h=float(g.uniform(0.02, 0.6)),
                       pk=str(g.choice(["cplx", "real"])), steps=int(g.integers(1, 4)), mk=[None, "nearsym", "repeat", "skewed", "nearreal", "int", "real"][(i // 2) % 7])


def special_matrix(mk, seed, L):
    """matrices for which a shortcut of the eigendecomposition is only nearly right"""
    g = np.random.default_rng(seed + 17)
    n = len(L)
    if mk is None:
        return L
    if mk in ("int", "real"):
        return typed_operator(g, n, "full", mk)[0]
    for _ in range(50):
        B = g.uniform(-1, 1, (n, n))
        Q = np.linalg.qr(B)[0]
        if mk == "nearsym":                    # symmetric up to a small perturbation
            M = -np.eye(n) - 0.4 * (B + B.T) / 2 + 10.0 ** -g.integers(5, 8) * g.uniform(-1, 1, (n, n))
        elif mk == "repeat":                   # symmetric with a double eigenvalue
            M = Q @ np.diag([-0.7] * 2 + list(-1.0 - 0.2 * np.arange(n - 2))) @ Q.T
            M = (M + M.T) / 2
        elif mk == "skewed":                   # nearly parallel eigenvectors
            S = np.eye(n) + 0.0
            d = 10.0 ** -g.integers(4, 6)
            S[0, 1], S[1, 1] = 1.0, d
            S = Q @ S
            M = S @ np.diag([-0.3, -0.3 - 1.5 * d] + list(-0.6 - 0.25 * np.arange(n - 2))) @ np.linalg.inv(S)
        else:                                  # complex eigenvalues with small imaginary parts
            e = 10.0 ** -g.integers(5, 7)
            M = np.diag(-0.4 - 0.2 * np.arange(n)) + 0.0
            M[0, 0] = M[1, 1]
            M[0, 1], M[1, 0] = e, -e
            M = Q @ M @ Q.T
        w, S = np.linalg.eig(M)
        if np.linalg.cond(S) < 3e6:
            return M.astype(L.dtype) if np.iscomplexobj(L) and g.integers(2) else M
    return L


def run_C12(case):
    name = case["name"]
    rep0 = "diag" if case["kind"] == "diagop" else "full"
    p = Problem(case["seed"], rep0, scale=0.8, kind=case["pk"] if rep0 == "diag" else "cplx")
    ec = lambda: econfig(modecutoff=0.5, contour_points=64, contour_radius=1.5) if name in ETD else None
    reps = []
    if case["kind"] == "diagop":
        L = np.array(p.L)
        L = L - 0.05 * np.arange(1, 4)          # invertible, distinct
        if case.get("mk") in ("int", "real"):
            L = -np.random.default_rng(case["seed"]).permutation([1, 2, 3]) * (1 if case["mk"] == "int" else 0.4)
        reps.append(("diag", L))
        reps.append(("full", np.diag(L)))
        if name in AS:
            reps.append(("eig", np.diag(L)))
    else:
        M = special_matrix(case.get("mk"), case["seed"], p.L)
        reps.append(("full", M))
        if name in AS:
            reps.append(("eig", M))
        w, S = np.linalg.eig(M)
        reps.append(("sim", (w, S, np.linalg.inv(S))))
    if case.get("mk") in ("int", "real"):
        L = reps[0][1]
        case = dict(case, h=min(case["h"], 0.4 / np.max(np.abs(L if L.ndim == 1 else np.linalg.eigvals(L)))))
    res = []
    for rep, L in reps:
        nl, u0, back = p.nl, p.u0.astype(complex), (lambda x: x)
        r = rep
        if rep == "sim":
            w, S, Si = L
            L, r = w, "diag"
            nl = lambda v, S=S, Si=Si: Si @ p.nl(S @ v)
            u0 = Si @ u0
            back = lambda x, S=S: S @ x
        s = make(name, r, L, nl, etd_config=ec(), config=sconfig(epsilon=1e3, safety_f=1.0) if name in AS else None, loglevel="CRITICAL")
        u, out = u0, []
        for j in range(case["steps"]):
            t = s._update_stages(u, case["h"])
            if name in AS:
                out.append((back(t[0]), back(t[1])))
                u = t[0]
                s._accept = True
            else:
                out.append((back(t), None))
                u = t
        res.append((rep, out))
    r0, o0 = res[0]
    for r1, o1 in res[1:]:
        for j, (a, b) in enumerate(zip(o0, o1)):
            if np.max(np.abs(a[0])) > 50:
                break
            if relerr(a[0], b[0]) > 1e-8:
                return f"{name}: step {j} state differs between {r0} and {r1} (relative {relerr(a[0], b[0]):.3g}, h={case['h']!r})"
            if a[1] is not None and np.max(np.abs(a[1] - b[1])) > 1e-5 * np.max(np.abs(a[1])) + 1e-10:
                return f"{name}: step {j} error estimate differs between {r0} and {r1} (relative {relerr(a[1], b[1]):.3g})"
    return None


# ------------------------------------------------------------------ C13
def gen_C13(rng, tier):
    k = 60 if tier == "quick" else 400
    for name, rep in [x for x in SPECS if x[0] in ETD]:
        for i, s in enumerate(seeds(rng, k)):
            g = np.random.default_rng(s)
            yield dict(name=name, rep=rep, seed=s, late=bool(g.integers(2)), h=float(g.uniform(0.05, 0.5)),
                       mc=float(g.choice([0.02, 0.05, 0.1, 0.3, 0.6, 1.0])), cp=int(g.choice([32, 33, 48, 64, 101] + [513, 1001] * (i % 6 == 5))),
                       cr=float(g.choice([1.3, 1.5, 2.0])), wide=bool(g.integers(2)))
        for i, s in enumerate(seeds(rng, 8 if tier == "quick" else 40)):     # small steps: every mode is a small one
            g = np.random.default_rng(s)
            yield dict(name=name, rep=rep, seed=s, late=bool(g.integers(2)), h=[5e-3, 5e-4, 5e-5, 5e-6][i % 4],
                       mc=float(g.choice([0.02, 0.1, 0.6, 1.0])), cp=int(g.choice([32, 33, 64])),
                       cr=float(g.choice([1.3, 1.5, 2.0])), wide=bool(g.integers(2)))
        for i, s in enumerate(seeds(rng, 10 if tier == "quick" else 60)):    # operators of other types than complex
            g = np.random.default_rng(s)
            yield dict(name=name, rep=rep, seed=s, late=bool(g.integers(2)), h=float(g.uniform(0.02, 0.2)), dt=["int", "real"][i % 2],
                       mc=float(g.choice([0.02, 0.1, 0.6, 1.0])), cp=int(g.choice([32, 48, 64])), cr=float(g.choice([1.5, 2.0])), wide=False)


def phis(z):
    """exponential weights psi_1..3 (psi_r = r! phi_r), accurate for every z"""
    z = np.asarray(z, complex)
    out = []
    for r in (1, 2, 3):
        f = math.factorial(r)
        ser = sum(f * z**k / math.factorial(k + r) for k in range(30))
        with np.errstate(all="ignore"):
            cl = f * (np.exp(z) - sum(z**k / math.factorial(k) for k in range(r))) / z**r
        out.append(np.where(np.abs(z) < 2, ser, cl))
    return out


def ref_step(name, lam, nl, u, h):
    """The documented ETD scheme (Krogstad / Whalen et al.), with accurate weights, on a diagonal operator."""
    z = h * np.asarray(lam, complex)
    E = lambda c: np.exp(c * z)
    if name in ("ETD4", "ETD34"):
        p12, q12, _ = phis(z / 2)
        p1, q1, t1 = phis(z)
        N1 = nl(u)
        k2 = E(.5) * u + h * .5 * p12 * N1
        N2 = nl(k2)
        k3 = E(.5) * u + h * (.5 * (p12 - q12) * N1 + .5 * q12 * N2)
        N3 = nl(k3)
        k4 = E(1) * u + h * ((p1 - q1) * N1 + q1 * N3)
        N4 = nl(k4)
        return E(1) * u + h * ((p1 - 1.5 * q1 + 2 / 3 * t1) * N1 + (q1 - 2 / 3 * t1) * (N2 + N3) + (-.5 * q1 + 2 / 3 * t1) * N4)
    p14, q14, _ = phis(z / 4)
    p12, q12, _ = phis(z / 2)
    p34, q34, _ = phis(3 * z / 4)
    p1, q1, t1 = phis(z)
    N1 = nl(u)
    N2 = nl(E(.25) * u + h * p14 / 4 * N1)
    N3 = nl(E(.25) * u + h * ((p14 - q14 / 2) / 4 * N1 + q14 / 8 * N2))
    N4 = nl(E(.5) * u + h * ((p12 - q12) / 2 * N1 + q12 / 2 * N3))
    N5 = nl(E(.75) * u + h * (.75 * (p34 - .75 * q34) * N1 - 3 / 8 * p34 * (N2 - N3) + 9 / 16 * q34 * N4))
    N6 = nl(E(1) * u + h * ((-77 * p1 + 59 * q1) / 42 * N1 + 8 * p1 / 7 * (N2 - 1.5 * N4) + (111 * p1 - 87 * q1) / 28 * N3
                            + (-47 * p1 + 143 * q1) / 84 * N5))
    return E(1) * u + h * (7 * (257 * p1 - 497 * q1 + 270 * t1) / 2700 * N1 + (1097 * p1 - 467 * q1 - 150 * t1) / 1350 * N3
                           + 2 * (-49 * p1 + 199 * q1 - 135 * t1) / 225 * N4 + (-313 * p1 + 883 * q1 - 90 * t1) / 1350 * N5
                           + (509 * p1 - 2129 * q1 + 1830 * t1) / 2700 * N6)


def run_C13(case):
    name, rep = case["name"], case["rep"]
    p = Problem(case["seed"], rep, n=5, scale=0.8, nlscale=0.5)
    L = np.array(p.L)
    if case.get("dt"):
        L, w, _ = typed_operator(np.random.default_rng(case["seed"]), 5, rep, case["dt"])
        case = dict(case, h=min(case["h"], 0.4 / np.max(np.abs(w))))
    elif rep == "diag" and case["wide"]:
        L = L * np.array([1e-3, 0.05, 1, 6, 40.0])
    h = case["h"]
    w, S = (L, np.eye(5)) if rep == "diag" else np.linalg.eig(L)
    Si = np.linalg.inv(S)
    u0 = p.u0.astype(complex)
    ref = S @ ref_step(name, w, lambda v: Si @ p.nl(S @ v), Si @ u0, h)

    def go(ec, change=None):
        s = make(name, rep, L, p.nl, etd_config=ec, config=sconfig() if name in AS else None, loglevel="CRITICAL")
        if change:
            s._update_stages(u0, 0.6 * h)
            s.reset()
            change(s.etd_config)
        r = s._update_stages(u0, h)
        return r[0] if name in AS else r
    new = dict(modecutoff=case["mc"], contour_points=case["cp"], contour_radius=case["cr"])
    if case["late"]:
        def change(c):
            c.modecutoff, c.contour_points, c.contour_radius = case["mc"], case["cp"], case["cr"]
        a = go(econfig(), change)
    else:
        a = go(econfig(**new))
    b = go(None)
    if np.max(np.abs(ref)) > 1e4 or not np.all(np.isfinite(ref)):
        return None
    for what, x, tol in ((f"settings {new}", a, 1e-7), ("default settings", b, 1e-7)):
        if relerr(x, ref) > tol:
            return f"{name}/{rep}: with {what} one step differs from the exponential-weight formula by {relerr(x, ref):.3g} (h={h!r})"
        free = S @ (np.exp(h * w) * (Si @ u0))      # the weights of the nonlinear terms, whatever the step size
        e = np.max(np.abs(x - ref)) / np.max(np.abs(ref - free))
        if e > 1e-6 + 1e-11 / h:
            return f"{name}/{rep}: with {what} the increment of one step differs from the formula by {e:.3g} (h={h!r})"
    return None


# ------------------------------------------------------------------ known findings (reproduced on every run)
def known_K1():
    nl = lambda u: u * u + 1
    u = np.ones(2, complex)
    a = one("ETD4", "full", np.diag([-100.0, -1.0]), nl, u, 0.5)[0]
    return relerr(a, ref_step("ETD4", np.array([-100.0, -1]), nl, u, 0.5)) > 1e-4


def known_K2():
    nl = lambda u: u * u + 1
    u = np.ones(2, complex)
    M = np.array([[-1.0, 1.0], [0.0, -1.0]])
    try:
        a = one("IF34", "eig", M, nl, u, 0.1)[0]
    except ValueError:
        return False
    return relerr(a, one("IF34", "full", M, nl, u, 0.1)[0]) > 1e-4


def known_K3():
    L = np.array([-0.5 * np.exp(1j * np.pi / 32)])
    nl = lambda u: u * u + 1
    a = one("ETD4", "diag", L, nl, np.ones(1, complex), 1.0, econfig(modecutoff=1.0, contour_radius=0.5))[0]
    return not np.all(np.isfinite(a)) or relerr(a, ref_step("ETD4", L, nl, np.ones(1, complex), 1.0)) > 1e-6


def known_K4():
    p = Problem(3, "full", n=3, scale=0.9, kind="cplx", nlscale=0.8)
    ec = econfig(modecutoff=0.9, contour_points=64, contour_radius=1.6)
    u0, h = p.u0.astype(complex), 0.03
    un, _ = one("ETD5", "full", p.L, p.nl, u0, h, ec)
    e = un - gbs(p.rhs, u0, h)
    k = h**5 * known_h5(p, u0)
    return np.max(np.abs(e - k)) < 0.7 * np.max(np.abs(e))


def known_K5():
    """cancellation in the closed forms: a tiny cutoff, or a tiny contour, leaves no correct digits"""
    nl = lambda u: u[::-1] * u[::-1] + 1
    L, u = np.array([-1e-6, -1.0]), np.ones(2, complex)
    bad = []
    for kw in (dict(modecutoff=1e-8), dict(contour_radius=1e-6)):
        for name in ETD:
            a = one(name, "diag", L, nl, u, 0.5, econfig(**kw))[0]
            bad.append(relerr(a, ref_step(name, L, nl, u, 0.5)) > 1e-2)
    return any(bad)


KNOWN = {"K1": known_K1, "K2": known_K2, "K3": known_K3, "K4": known_K4, "K5": known_K5}

ORACLES = {"C09": (gen_order(AS + CS), run_C09), "C10": (gen_order(AS), run_C10), "C11": (gen_C11, run_C11),
           "C12": (gen_C12, run_C12), "C13": (gen_C13, run_C13)}
