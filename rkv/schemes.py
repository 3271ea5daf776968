"""C09-C13: the schemes. One step of the extracted solver code is executed on symbolic input; its result is a normal form
sum of coefficients (functions of z = h*lambda) times u and N(stage arguments), and the properties are identities of
that normal form (or of its B-series)."""
import json
import os
from fractions import Fraction as Fr
from math import factorial
from . import core, lemma, parallel, ring, arr
from .core import Unsupported, PROVED, REFUTED, UNKNOWN
from .ring import El, sym
from .arr import Arr, ONE, narg, vsame, vadd, NDIM
from .smodel import (world, NLFunc, scalars, stepsize, operator, state, build, etdconfig, Refused, SPECS, AS, CS, ORDER, EORDER,
                     IS_ETD, MODS, REPS, vecof, ASSUME)

BACK = "exact normal form"


class Step:
    """what one step returned"""

    def __init__(self, unew, err, calls, tags):
        self.unew, self.err, self.calls, self.tags = unew, err, calls, tags


def one_step(cls, rep, h=None, etd=None):
    w = world()
    L, nl, u = operator(rep), NLFunc(), state("u")
    e = None
    if cls in IS_ETD:
        mc, M, R = scalars()
        e = etdconfig(w, mc, M, R)
    s = build(w, cls, rep, L, nl, e)
    h = stepsize("h") if h is None else h
    return take(cls, s, u, h, nl)


def take(cls, s, u, h, nl):
    n0 = len(nl.calls)
    if cls in CS:
        r, err = s.step(u, h), None
    else:
        r, err = s._update_stages(u, h)
        err = vecof(err, "error estimate")
    r = vecof(r, "new state")
    d = core.ctx().data
    tags = {"order3": sorted(f"{v}" for v in d.get("order3", {}).values()), "dtype": core.ctx().atoms.get(("dtype", "complex"))}
    return Step(r, err, nl.calls[n0:], tags)


FNS = {c: [f"{MODS[c]}.{c}.__init__", f"{MODS[c]}.{c}._update_coeffs", f"{MODS[c]}.{c}._update_stages"] for c in MODS}


def job(pid, cls, rep):
    rep_ = core.Report()
    fn = f"{MODS[cls]}.{cls}[{rep}]"
    results = []

    def go(c):
        try:
            st = one_step(cls, rep)
        except Refused:
            return None
        results.append(st)
        CHECK[pid](rep_, cls, rep, st, fn)
        return st
    try:
        outs = core.explore(go, rep_, max_paths=200)
    except Unsupported as e:
        rep_.unsupported.append((fn, str(e)))
        return rep_
    except (ZeroDivisionError, TypeError, ValueError, AttributeError, KeyError, IndexError, AssertionError, NameError) as e:
        rep_.unsupported.append((fn, f"{type(e).__name__}: {e}"))
        return rep_
    n = sum(1 for o, c in outs if o[0] == "ok" and o[1] is not None)
    if n == 0:
        rep_.unsupported.append((fn, "no path of the step completes"))
    else:
        rep_.functions.setdefault(fn, set()).add(f"{n} paths of one step, from construction")
    return rep_


def add(rep, name, ok, fn, detail=""):
    rep.add(name, PROVED if ok is True else REFUTED if ok is False else UNKNOWN, fn, BACK, 0.0, "" if ok is True else detail)


def where(st):
    t = "".join(st.tags["order3"])
    return {"<": "|z| below modecutoff", "==": "|z| = modecutoff", ">": "|z| above modecutoff"}.get(t, t or "any mode")


# ---------------------------------------------------------------- helpers on normal forms
def H():
    return sym("h")


def Z():
    return sym("h") * sym("lam")


def allvecs(st):
    """every stage argument, the new state and the error estimate, by name"""
    out = [(f"argument of nonlinear evaluation {i + 1}", narg(k)) for i, (k, v) in enumerate(st.calls)]
    out.append(("new state", st.unew.val))
    if st.err is not None:
        out.append(("error estimate", st.err.val))
    return out


def used_args(st):
    """indices of the nonlinear evaluations the new state (and estimate) depend on, transitively"""
    seen = set()

    def walk(v):
        for b in v:
            if isinstance(b, tuple) and b[0] == "N" and b[1] not in seen:
                seen.add(b[1])
                walk(narg(b[1]))
    walk(st.unew.val)
    if st.err is not None:
        walk(st.err.val)
    return seen


def foreign(v):
    return [b for b in v if b != "u" and not (isinstance(b, tuple) and b[0] == "N")]


# ---------------------------------------------------------------- C13
def check_c13(rep, cls, kind, st, fn):
    allowed = {"h", "lam", "I", "pi"}
    for name, v in allvecs(st):
        bad = sorted({s for e in v.values() for s in e.syms()} - allowed)
        add(rep, f"{fn}: {name} does not depend on modecutoff, contour radius or number of points ({where(st)})", not bad, fn,
            f"depends on {bad}: {str(v)[:300]}")
        if kind != "full":
            sg = sorted({e.sing for e in v.values() if e.sing})
            add(rep, f"{fn}: {name} uses no closed form where it is singular ({where(st)})", not sg, fn, "; ".join(sg))
    if kind == "full":
        sg = sorted({e.sing for _, v in allvecs(st) for e in v.values() if e.sing})
        add(rep, f"{fn}: no inverse of a possibly singular function of the operator", not sg, fn, "; ".join(sg))


def same_step(a, b):
    return vsame(a.unew.val, b.unew.val) and (a.err is None or vsame(a.err.val, b.err.val))


def job_c13(cls, rep):
    """both branches give the same normal form; settings changed after construction do not matter"""
    r = core.Report()
    fn = f"{MODS[cls]}.{cls}[{rep}]"
    sts = []

    def go(c):
        try:
            st = one_step(cls, rep)
        except Refused:
            return None
        sts.append((st, where(st)))
        check_c13(r, cls, rep, st, fn)
        return st

    def go2(c):
        w = world()
        L, nl, u = operator(rep), NLFunc(), state("u")
        mc, M, R = scalars()
        e = etdconfig(w, mc, M, R)
        try:
            s = build(w, cls, rep, L, nl, e)
        except Refused:
            return None
        take(cls, s, state("u0"), stepsize("g"), nl)
        mc2, _, R2 = scalars("b")
        s.etd_config.modecutoff = mc2
        s.etd_config.contour_radius = R2
        s.reset()
        st = take(cls, s, u, stepsize("h"), nl)
        ref = sts[0][0]
        add(r, f"{fn}: settings changed after construction leave the step unchanged", same_step(st, ref), fn,
            diffmsg(st, ref))
        return st
    try:
        core.explore(go, r, max_paths=200)
        if not sts:
            r.unsupported.append((fn, "no path of the step completes"))
            return r
        for st, wh in sts[1:]:
            add(r, f"{fn}: the step for a mode with {wh} is the one for a mode with {sts[0][1]}", same_step(st, sts[0][0]), fn,
                diffmsg(st, sts[0][0]))
        core.explore(go2, r, max_paths=400)
        r.functions.setdefault(fn, set()).add(f"{len(sts)} paths of one step")
    except Unsupported as e:
        r.unsupported.append((fn, str(e)))
    except Exception as e:  # noqa: BLE001
        r.unsupported.append((fn, f"{type(e).__name__}: {e}"))
    return r


def diffmsg(a, b):
    out = []
    for nm, x, y in (("new state", a.unew, b.unew),) + ((("error estimate", a.err, b.err),) if a.err is not None else ()):
        for k in set(x.val) | set(y.val):
            p, q = x.val.get(k, El()), y.val.get(k, El())
            if not p.same(q):
                out.append(f"{nm}: coefficient of {k} is {p!r}, expected {q!r}")
    return "; ".join(out)[:700]


# ---------------------------------------------------------------- C11
def phi1h():
    return (ring.exp(Z()) - 1) / sym("lam")


def ucoef(v):
    return v.get("u", El())


def check_c11(rep, cls, kind, st, fn):
    wh = where(st)
    add(rep, f"{fn}: with N = 0 one step multiplies by exp(h L) ({wh})", ucoef(st.unew.val).same(ring.exp(Z())) and not foreign(st.unew.val), fn,
        f"coefficient of u is {ucoef(st.unew.val)!r}")
    if st.err is not None:
        add(rep, f"{fn}: with N = 0 the error estimate is zero ({wh})", ucoef(st.err.val).is_zero() and not foreign(st.err.val), fn,
            f"coefficient of u is {ucoef(st.err.val)!r}")
    for i, (k, _) in enumerate(st.calls):
        v = narg(k)
        if k not in used_args(st):
            continue
        c = stage_c(v)
        ok = None if c is None else (not foreign(v) and ucoef(v).same(ring.exp(El.of(c) * Z())))
        add(rep, f"{fn}: nonlinear evaluation {i + 1} is made at a state propagated by exp(c h L) ({wh})", ok, fn,
            f"c = {c}, coefficient of u is {ucoef(v)!r}")
    if cls in IS_ETD:
        # constant N: the sum of the coefficients of all nonlinear evaluations
        tot = El()
        for b, e in st.unew.val.items():
            if b != "u":
                tot = tot + e
        add(rep, f"{fn}: with constant N the step adds h phi_1(h L) N ({wh})", tot.same(phi1h()), fn, f"coefficients sum to {ring.reduce_(tot)!r}")
        if st.err is not None:
            t2 = El()
            for b, e in st.err.val.items():
                if b != "u":
                    t2 = t2 + e
            add(rep, f"{fn}: with constant N the error estimate is zero ({wh})", t2.is_zero(), fn, f"{t2!r}")
    sg = sorted({e.sing for _, v in allvecs(st) for e in v.values() if e.sing})
    add(rep, f"{fn}: coefficients are defined for every mode ({wh})", not sg, fn, "; ".join(sg))


def stage_c(v):
    """the scheme's c of a stage: (sum of its nonlinear coefficients)/h at lambda = 0"""
    tot = El()
    for b, e in v.items():
        if b != "u":
            tot = tot + e
    try:
        s = ring.series(ring.reduce_(tot), 1)
    except Unsupported:
        return None
    if set(k for k in s if k[1] <= 0) - {(1, 0)}:
        return None
    c = s.get((1, 0), (Fr(0), Fr(0)))
    return c[0] if c[1] == 0 else None


# ---------------------------------------------------------------- C09 / C10: B-series
_TR = {}


def multisets(n, maxsize):
    if n == 0:
        yield ()
        return
    for m in range(1, min(n, maxsize) + 1):
        for tr in _TR[m]:
            for rest in multisets(n - m, m):
                yield tuple(sorted((tr,) + rest, key=repr))


def trees(n):
    """elementary differentials of u' = L u + N(u) with n nodes: ('N', children) or ('L', (child,)) or ('L', ())"""
    for k in range(1, n + 1):
        if k not in _TR:
            s = set()
            for ms in multisets(k - 1, k - 1):
                s.add(("N", ms))
            if k == 1:
                s.add(("L", ()))
            else:
                for tr in _TR[k - 1]:
                    s.add(("L", (tr,)))
            _TR[k] = sorted(s, key=repr)
    return _TR[n]


def tname(t):
    return t[0] + ("[" + ",".join(tname(x) for x in t[1]) + "]" if t[1] else "")


def torder(t):
    return 1 + sum(torder(x) for x in t[1])


def gamma(t):
    g = torder(t)
    for x in t[1]:
        g *= gamma(x)
    return g


class BSeries:
    def __init__(self, p):
        self.p = p
        self.cache = {}
        self.ser = {}

    def coeffs(self, key, v):
        """{basis: {power of lambda: coefficient}} with the power of h checked (h^k for u, h^(k+1) for N)"""
        if key in self.ser:
            return self.ser[key]
        out = {}
        for b, e in v.items():
            s = ring.series(ring.reduce_(e), self.p)
            shift = 0 if b == "u" else 1
            d = {}
            for (a, k), c in s.items():
                if a != k + shift or k < 0:
                    raise Homog(f"coefficient of {b} contains h^{a} L^{k}")
                d[k] = c
            out[b] = d
        self.ser[key] = out
        return out

    def phi(self, key, v, t):
        ck = (key, t)
        if ck in self.cache:
            return self.cache[ck]
        k = 0
        x = t
        while x[0] == "L":
            k += 1
            if not x[1]:
                r = self.coeffs(key, v).get("u", {}).get(k, (Fr(0), Fr(0)))
                self.cache[ck] = r
                return r
            x = x[1][0]
        r = (Fr(0), Fr(0))
        for b, d in self.coeffs(key, v).items():
            if b == "u" or k not in d:
                continue
            w = d[k]
            for y in x[1]:
                w = cmul(w, self.phi(b[1], narg(b[1]), y))
                if w == (0, 0):
                    break
            r = (r[0] + w[0], r[1] + w[1])
        self.cache[ck] = r
        return r

    def start(self, key, v):
        return self.coeffs(key, v).get("u", {}).get(0, (Fr(0), Fr(0)))


class Homog(Exception):
    pass


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def known_trees():
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
    for k in json.load(open(p))["known"]:
        if k["id"] == "K4":
            return {t: Fr(v) for t, v in k["trees"].items()}
    return {}


def consistent(bs, st):
    """every stage starts from u: the coefficient of u at h = 0 is 1"""
    out = []
    used = used_args(st)
    for k in used:
        if foreign(narg(k)) or bs.start(k, narg(k)) != (1, 0):
            out.append(k)
    return out


def check_c09(rep, cls, kind, st, fn):
    p = ORDER[cls]
    bs = BSeries(p)
    kt = known_trees() if cls in ("ETD5", "ETD35") else {}
    try:
        bad = consistent(bs, st)
        add(rep, f"{fn}: every stage starts from the current state ({where(st)})", not bad and not foreign(st.unew.val)
            and bs.start("new", st.unew.val) == (1, 0), fn, f"stages {bad}")
        for n in range(1, p + 1):
            for t in trees(n):
                got = bs.phi("new", st.unew.val, t)
                want = Fr(1, gamma(t))
                ok = got == (want, 0)
                if not ok and n == p and tname(t) in kt and got[1] == 0 and got[0] - want == kt[tname(t)]:
                    continue          # recorded known finding K4 (this tree, this defect)
                add(rep, f"{fn}: order {n} condition {tname(t)} ({where(st)})", ok, fn, f"weight {got[0]}{'' if not got[1] else f'+{got[1]}i'}, must be {want}")
    except Homog as e:
        add(rep, f"{fn}: the step is a series in h L and h N ({where(st)})", False, fn, str(e))


def check_c10(rep, cls, kind, st, fn):
    q = EORDER[cls]
    bs = BSeries(q)
    add(rep, f"{fn}: the estimate is in the basis of the state ({where(st)})", st.err.space in (None, st.unew.space), fn,
        f"estimate in {st.err.space}, state in {st.unew.space} coordinates")
    try:
        add(rep, f"{fn}: every stage starts from the current state ({where(st)})", not consistent(bs, st), fn)
        z0 = bs.start("err", st.err.val)
        add(rep, f"{fn}: the estimate has no term of order 0 ({where(st)})", z0 == (0, 0) and not foreign(st.err.val), fn, f"{z0}")
        for n in range(1, q):
            for t in trees(n):
                got = bs.phi("err", st.err.val, t)
                add(rep, f"{fn}: the estimate has no term {tname(t)} of order {n} < {q} ({where(st)})", got == (0, 0), fn, f"weight {got[0]}")
        nz = [t for t in trees(q) if bs.phi("err", st.err.val, t) != (0, 0)]
        add(rep, f"{fn}: the estimate has a term of order {q} ({where(st)})", bool(nz), fn, "all terms of that order vanish")
    except Homog as e:
        add(rep, f"{fn}: the estimate is a series in h L and h N ({where(st)})", False, fn, str(e))


def job_c10(cls, rep):
    r = job("C10", cls, rep)
    fn = f"{MODS[cls]}.{cls}[{rep}]"

    def go(c):
        w = world()
        nl = NLFunc()
        e = None
        if cls in IS_ETD:
            e = etdconfig(w, *scalars())
        try:
            s = build(w, cls, rep, operator(rep), nl, e)
        except Refused:
            return None
        q = s._q()
        add(r, f"{fn}: the controller's exponent uses q = {EORDER[cls]}", q == EORDER[cls], fn, f"q = {q!r}")
        # the estimate of a later attempt, of any step size, is the same function of state and step size
        u1 = state("u0")
        take(cls, s, u1, stepsize("g"), nl)
        return None
    try:
        core.explore(go, r, max_paths=100)
    except Unsupported as e:
        r.unsupported.append((fn, str(e)))
    except Exception as e:  # noqa: BLE001
        r.unsupported.append((fn, f"{type(e).__name__}: {e}"))
    return r


# ---------------------------------------------------------------- C12
def job_c12(cls):
    r = core.Report()
    ref = None
    for rep in REPS[cls]:
        fn = f"{MODS[cls]}.{cls}[{rep}]"
        sts = []

        def go(c):
            try:
                st = one_step(cls, rep)
            except Refused:
                return None
            sts.append(st)
            return st
        try:
            core.explore(go, r, max_paths=200)
        except Unsupported as e:
            r.unsupported.append((fn, str(e)))
            continue
        except Exception as e:  # noqa: BLE001
            r.unsupported.append((fn, f"{type(e).__name__}: {e}"))
            continue
        if not sts:
            r.unsupported.append((fn, "no path of the step completes"))
            continue
        if ref is None:
            ref = (rep, sts[0])
        for st in sts:
            d = diffmsg(st, ref[1])
            add(r, f"{fn}: new state is the one of the {ref[0]} representation ({where(st)})", vsame(st.unew.val, ref[1].unew.val), fn, d)
            add(r, f"{fn}: result is in physical coordinates ({where(st)})", st.unew.space in ("phys", None) and (st.err is None or st.err.space in ("phys", None)), fn,
                f"state in {st.unew.space}, estimate in {st.err.space if st.err is not None else None} coordinates")
            if st.err is not None:
                add(r, f"{fn}: error estimate is the one of the {ref[0]} representation ({where(st)})", vsame(st.err.val, ref[1].err.val), fn, d)
        r.functions.setdefault(fn, set()).add(f"{len(sts)} paths of one step")
    return r


CHECK = {"C09": check_c09, "C10": check_c10, "C11": check_c11}


def verify(pid, tier, rep):
    lem = lemma.contour() if pid in ("C09", "C10", "C11", "C12", "C13") else None
    if pid == "C12":
        rs = parallel.run(job_c12, [(c,) for c in REPS if len(REPS[c]) > 1])
    elif pid == "C13":
        rs = parallel.run(job_c13, [(c, r) for c, r in SPECS if c in IS_ETD])
    elif pid == "C10":
        rs = parallel.run(job_c10, [(c, r) for c, r in SPECS if c in AS])
    else:
        rs = parallel.run(job, [(pid, c, r) for c, r in SPECS])
    for r in rs:
        rep.merge(r)
    for a in ASSUME:
        rep.assume(a)
    if pid == "C12":
        rep.assume("full-matrix ETD: the spectrum of h*L lies inside the contour (known finding K1); diagonalize=True: L is diagonalizable (K2)")
    if pid == "C13":
        rep.assume("no contour node falls on a zero of the denominators (known finding K3); real arithmetic: no cancellation for tiny settings (K5)")
    if pid == "C09":
        rep.notes.append("the 14 fifth-order trees of known finding K4 are excluded for ETD5/ETD35 as long as their defect is the recorded one")
    if lem:
        lem.done(rep)
