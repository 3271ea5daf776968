"""Contracts of BaseSolverAS.step and its helpers (C04, C05), over extended reals.

_update_stages is a stub returning an arbitrary new state and error estimate; the ghost state follows the
specification: k attempts made, the step size hexp the next attempt must use, whether the last attempt must
be accepted, and what step must then return.
"""
import math as _math
import z3
from . import core, parallel, xr
from .core import Unsupported, PathEnd, SInt, SBool, mkbool, mkint, Poison
from .extract import World
from .xr import XR, equal
from .runtime import CutRuntime, Shim, logging_shim, houdini, SRange, NativeLoop, Missing
from .evolve import rename, ie, Lin, UnrolledRange

FN = "rkstiff.solveras.BaseSolverAS.step"


class Vec:
    """a state or error vector; everything known about it is in its attempt"""

    def __init__(self, name, att=None):
        self.name, self.att = name, att

    def __getitem__(self, m):
        if isinstance(m, Mask):
            return Sel(self, m)
        raise Unsupported("indexing of a state vector")

    def __abs__(self):
        return Mag(self)

    @property
    def size(self):
        raise Unsupported("size of a state vector")

    def __repr__(self): return f"<Vec {self.name}>"
    def __format__(self, s): return "<vec>"

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported(f"step uses .{a} of a state vector")


class Sel:
    def __init__(self, vec, mask):
        self.vec, self.mask = vec, mask

    def __abs__(self):
        return self

    def __getattr__(self, a):
        raise Unsupported(f"use of .{a} of a selection")


class Mag:
    """|v| * num / den"""

    def __init__(self, vec, num=None, den=None):
        self.vec, self.num, self.den = vec, num or XR.const(1), den or XR.const(1)

    def max(self):
        if equal(self.num, XR.const(1)) is not True and not core.ctx().valid(equal(self.num, XR.const(1))):
            raise Unsupported("max of a scaled magnitude")
        a = self.vec.att
        if a is None:
            raise Unsupported("max of an unknown vector")
        return a.maxof(self.vec)

    def __truediv__(self, o):
        p = XR._o(o)
        if p is None:
            return NotImplemented
        return Mag(self.vec, self.num, self.den * p)

    def __mul__(self, o):
        p = XR._o(o)
        if p is None:
            return NotImplemented
        return Mag(self.vec, self.num * p, self.den)
    __rmul__ = __mul__

    def __gt__(self, o): return Mask(self, ">", o)
    def __ge__(self, o): return Mask(self, ">=", o)
    def __lt__(self, o): return Mask(self, "<", o)
    def __le__(self, o): return Mask(self, "<=", o)

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported(f"use of .{a} of |u|")


class Mask:
    def __init__(self, mag, op, bound, neg=False):
        self.mag, self.op, self.bound, self.neg = mag, op, XR._o(bound), neg
        if self.bound is None:
            raise Unsupported("mask bound")

    def __invert__(self):
        return Mask(self.mag, self.op, self.bound, not self.neg)

    def key(self, att):
        """'rel' (the documented selection), 'empty', 'all' or another selection"""
        c = core.ctx()
        if self.mag.vec is not att.u:
            return ("other", id(self.mag.vec), self.op, self.neg)
        num, den, b = self.mag.num, self.mag.den, self.bound
        op = self.op
        if att.kind != "pos":
            # degenerate state (all zero, or an inf/nan entry); only the documented forms are recognised
            if op != ">" and not (op == "<=" and self.neg):
                return ("other", op, self.neg)
            if op == "<=":
                return ("all",)
            return ("empty",)
        if num.kind != "fin" or den.kind != "fin" or b.kind != "fin":
            return ("other", op, self.neg)
        want = num.e * att.cut.e * att.max.e
        same = c.valid(z3.And(den.e > 0, num.e > 0, b.e * den.e == want))
        pos = (op == ">" and not self.neg) or (op == "<=" and self.neg)
        if same and pos:
            return ("rel",)
        return ("other", str(z3.simplify(b.e * den.e / num.e)), op, self.neg)


class Attempt:
    """ghost record of one attempt: its state, estimate and the specified step-size factor"""

    def __init__(self, i, cfg, q, force=None):
        c = core.ctx()
        self.i = i
        self.u, self.err = Vec(f"u{i}", self), Vec(f"err{i}", self)
        self.cut = cfg["adapt_cutoff"]
        self.kind = c.choose(("state", i), force["state"] if force else ("pos", "nan", "inf", "zero"))
        self.norms = {}
        if self.kind == "pos":
            self.max = XR.new("max", True)
            c.assume(self.max.e > 0)
        else:
            self.max = {"nan": XR("nan", None, True), "inf": XR("pinf", None, True), "zero": XR.const(0, True)}[self.kind]
        rel = Mask(Mag(self.u, den=self.max), ">", self.cut)
        nu, ne = self.norm(Sel(self.u, rel)), self.norm(Sel(self.err, rel), force)
        self.s = cfg["safety_f"] * ((cfg["epsilon"] * nu / ne) ** (XR.const(1) / XR.const(q)))
        self.accept = self.s.kind == "fin" and bool(self.s >= 1)

    def maxof(self, v):
        if v is self.u:
            return self.max
        if ("max", v.name) not in self.norms:
            k = core.ctx().choose(("maxof", v.name), ("fin", "nan", "pinf"))
            m = XR(k, core.ctx().fresh("max") if k == "fin" else None, True)
            if k == "fin":
                core.ctx().assume(m.e >= 0)
            self.norms[("max", v.name)] = m
        return self.norms[("max", v.name)]

    def norm(self, x, force=None):
        c = core.ctx()
        if isinstance(x, Sel):
            v, key = x.vec, x.mask.key(self)
        else:
            v, key = x, ("all",)
        if v.att is not self:
            raise Unsupported("selection of one attempt applied to another")
        if key == ("empty",):
            return XR.const(0, True)
        if (v.name, key) in self.norms:
            return self.norms[(v.name, key)]
        if v is self.u and self.kind != "pos" and key == ("all",):
            r = {"nan": XR("nan", None, True), "inf": XR("pinf", None, True), "zero": XR.const(0, True)}[self.kind]
        elif v is self.u and key[0] in ("rel", "all"):
            r = XR.new("norm_u", True)
            c.assume(r.e > 0)
        else:
            k = c.choose(("norm", v.name, key), force["err"] if force else ("fin", "nan", "pinf"))
            r = XR(k, c.fresh("norm") if k == "fin" else None, True)
            if k == "fin":
                c.assume(r.e >= 0)
        self.norms[(v.name, key)] = r
        return r


class G:
    pass


class RT(CutRuntime):
    def __init__(self, unroll=None, force=None):
        super().__init__()
        self.unroll, self.force = unroll, force

    @property
    def g(self):
        return core.ctx().data["G"]

    def lit(self, text):
        if "j" in text:
            raise Unsupported("complex literal")
        return XR.const(float(text))

    def numdiv(self, a, b):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return XR.const(xr.Fr(a) / xr.Fr(b))

    def pick(self, r, x, better):
        a, b = XR._o(r), XR._o(x)
        if a is None or b is None:
            return super().pick(r, x, better)
        return xr.pick(a, b, better)

    def native(self, mod, qual, kind, it):
        if self.unroll is not None:
            return True
        return kind == "for" and not isinstance(it, SRange) and not (isinstance(it, range) and len(it) > 8)

    def loop(self, ident, mod, qual, names, kind, it):
        if self.unroll is not None and isinstance(it, SRange):
            it = UnrolledRange(it)
        return super().loop(ident, mod, qual, names, kind, it)

    # ghost and state at a loop head
    def havoc_ghost(self, loop):
        c, g = core.ctx(), self.g
        g.k = c.fresh("k", "Int")
        c.assume(g.k >= 0)
        g.hexp = XR.new("hexp")
        g.att = None        # the attempts so far were all rejected (obligation at each new attempt)

    def havoc(self, var, v, kind):
        c = core.ctx()
        nm = str(var[-1])
        if kind == "bad":
            return Poison(nm)
        if isinstance(v, (bool, SBool)):
            return SBool(c.fresh(nm, "Bool"))
        if kind == "XR" or isinstance(v, (XR, float)):
            if kind == "fin" or (kind is None and isinstance(v, XR) and v.kind == "fin"):
                return XR.new(nm, v.np if isinstance(v, XR) else False)
            k = c.choose(("kind", nm), ("fin", "nan", "pinf", "ninf"))
            return XR(k, c.fresh(nm) if k == "fin" else None)
        if isinstance(v, (int, SInt)):
            return mkint(c.fresh(nm, "Int"))
        return Poison(nm)

    def join_kind(self, kind, a, b):
        def k(x):
            if isinstance(x, (bool, SBool)):
                return "B"
            if isinstance(x, (int, SInt)):
                return "I"
            if isinstance(x, XR):
                return "fin" if x.kind == "fin" else "XR"
            if isinstance(x, Poison):
                return "P"
            return type(x).__name__
        ka, kb = kind or k(a), k(b)
        if ka == "P" or kb == "P" or ka == kb:
            return kind
        if {ka, kb} <= {"I", "fin", "XR"}:
            return "XR" if "XR" in (ka, kb) else "fin"
        return "bad"

    def same_value(self, a, b):
        if isinstance(a, XR) and isinstance(b, XR):
            return a.kind == b.kind and (a.kind != "fin" or z3.eq(a.e, b.e))
        if isinstance(a, (int, str, float)) and isinstance(b, (int, str, float)):
            return type(a) is type(b) and a == b
        return a is b

    def candidates(self, loop, st, mod):
        g = self.g
        out = []
        head = getattr(loop, "entry", None)
        if head is not None:
            st = {v: x for v, x in st.items() if v in head and not isinstance(head[v], Poison)}
        for v in st:
            if v not in mod:
                continue
            n = str(v)
            if isinstance(st[v], XR):
                out += [(f"{n}==hexp", lambda s, v=v: equal(s[v], g.hexp)),
                        (f"{n}>0", lambda s, v=v: fin(s[v]) > 0),
                        (f"{n}<=h0", lambda s, v=v: fin(s[v]) <= g.h0.e)]
            elif isinstance(st[v], (int, SInt)) and not isinstance(st[v], bool):
                for d in (0, 1, -1):
                    out.append((f"{n}==k+{d}", lambda s, v=v, d=d: ie(s[v]) == g.k + d))
                for d in (50, 51, 52):
                    out.append((f"{n}=={d}-k", lambda s, v=v, d=d: ie(s[v]) == d - g.k))
        out += [("k<=50", lambda s: g.k <= 50), ("k<=51", lambda s: g.k <= 51), ("hexp>0", lambda s: fin(g.hexp) > 0),
                ("hexp<=h0", lambda s: fin(g.hexp) <= g.h0.e),
                ("k=0 => hexp=h0", lambda s: z3.Implies(g.k == 0, fin(g.hexp) == g.h0.e)),
                ("k>=1 => hexp>=minh", lambda s: z3.Implies(g.k >= 1, fin(g.hexp) >= g.cfg["minh"].e))]
        return out

    def after_head(self, loop, st):
        self.g.khead = self.g.k

    def pre_back(self, loop, st):
        g = self.g
        if not z3.is_true(z3.simplify(g.k == g.khead + 1)):
            raise Unsupported("a loop iteration that does not make exactly one attempt")
        if g.att is not None and g.att.accept:
            if g.pid == "C04":
                core.ctx().prove(f"{FN}: an attempt that meets the tolerance is accepted", False, FN)
            raise PathEnd()


def fin(x):
    if x.kind != "fin":
        raise Unsupported("not finite")
    return x.e


def stub(rt, solver, u, h):
    c = core.ctx()
    g = c.data["G"]
    h = XR._o(h)
    if h is None:
        raise Unsupported("step size of unknown form")
    if rt.unroll is not None and g.n >= rt.unroll:
        raise PathEnd()
    if g.att is not None and g.pid == "C04":
        c.prove(f"{FN}: an attempt that meets the tolerance is accepted", not g.att.accept, FN)
    if g.pid == "C05":
        c.prove(f"{FN}: every attempt starts from the state passed to step", u is g.u0, FN)
        c.prove(f"{FN}: every attempt uses the specified step size", equal(h, g.hexp), FN)
        c.prove(f"{FN}: at most 51 attempts", g.k <= 50, FN)
    if not c.valid(equal(h, g.hexp)) or h.kind != "fin":
        if g.pid == "C05":
            raise PathEnd()
        if h.kind != "fin":
            raise Unsupported("step size not finite")
        g.hexp = h
    att = Attempt(g.n, g.cfg, g.q, rt.force)
    g.n += 1
    g.k = z3.simplify(g.k + 1)
    g.att, g.hatt = att, g.hexp
    s = att.s
    if not att.accept:
        if s.kind != "fin":
            f = XR.const(0.25)
        else:
            f = xr.pick(s, XR.const(0.25), lambda a, b: b > a)
            f = xr.pick(f, g.cfg["decr_f"], lambda a, b: b < a)
        g.hexp = f * g.hatt
    return att.u, att.err


def shims():
    def asx(x):
        v = XR._o(x)
        if v is None:
            raise Unsupported("numpy function of this value")
        return v

    def absf(x):
        if isinstance(x, (Vec, Sel)):
            return abs(x)
        return abs(asx(x))

    def red(sign):
        def f(x, axis=None, **k):
            if isinstance(x, Mag):
                if sign < 0:
                    raise Unsupported("min of |u|")
                return x.max()
            if isinstance(x, (list, tuple)):
                return xr.npmax(x, sign)
            return asx(x)
        return f

    def norm(x, ord=None, axis=None):
        if ord is not None:
            if isinstance(ord, float) and ord == _math.inf or (isinstance(ord, XR) and ord.kind == "pinf"):
                return absf(x).max() if isinstance(x, Vec) else _no()
            if not (isinstance(ord, int) and ord == 2):
                _no()
        if isinstance(x, (Vec, Sel)):
            v = x.vec if isinstance(x, Sel) else x
            if v.att is None:
                raise Unsupported("norm of an unknown vector")
            return v.att.norm(x)
        if isinstance(x, Mag):
            raise Unsupported("norm of |u|")
        return abs(asx(x))

    def _no():
        raise Unsupported("norm of this kind")

    def npx(v):
        v = asx(v)
        return XR(v.kind, v.e, True)

    def clip(x, lo, hi):
        r = npx(x)
        if lo is not None:
            r = xr.npmax([r, lo])
        if hi is not None:
            r = xr.npmax([r, hi], -1)
        return r

    def errstate(**k):
        class E:
            def __enter__(self): return None
            def __exit__(self, *a): return False
        return E()
    linalg = Shim("numpy.linalg", norm=norm)
    np = Shim("numpy", ndarray=object, abs=absf, absolute=absf, fabs=absf, max=red(1), amax=red(1), min=red(-1), amin=red(-1),
              maximum=lambda a, b: xr.npmax([a, b]), minimum=lambda a, b: xr.npmax([a, b], -1), power=lambda a, b: npx(a) ** asx(b),
              float_power=lambda a, b: npx(a) ** asx(b),
              isnan=lambda x: xr.isnan(x), isinf=lambda x: xr.isinf(x), isfinite=lambda x: xr.isfinite(x), linalg=linalg, float64=npx,
              inf=XR("pinf"), nan=XR("nan"), clip=clip, divide=lambda a, b: npx(a) / asx(b), multiply=lambda a, b: npx(a) * asx(b),
              errstate=errstate, reciprocal=lambda x: XR.divide(XR.const(1, True), npx(x)), asarray=lambda x: x, any=lambda x: x, all=lambda x: x)
    math = Shim("math", isnan=xr.isnan, isinf=xr.isinf, isfinite=xr.isfinite, fabs=lambda x: abs(asx(x)), pow=lambda a, b: asx(a) ** asx(b),
                inf=XR("pinf"), nan=XR("nan"))
    return {"numpy": np, "logging": logging_shim(), "math": math, "scipy": Shim("scipy"), "scipy.linalg": Shim("scipy.linalg"),
            "numpy.linalg": linalg}


PARAMS = {"epsilon": lambda e: e > 0, "incr_f": lambda e: e > 1, "decr_f": lambda e: e < 1, "safety_f": lambda e: e <= 1,
          "adapt_cutoff": lambda e: z3.And(e >= 0, e < 1), "minh": lambda e: e > 0}


def run_step(rt, pid, q, late=False):
    def run(c):
        c.data["rt"] = rt
        g = G()
        c.data["G"] = g
        g.pid, g.q = pid, q
        g.cfg = {}
        for p, ok in PARAMS.items():
            v = XR.new(p)
            c.assume(ok(v.e))
            g.cfg[p] = v
        g.h0 = XR.new("h0")
        c.assume(g.h0.e > 0)
        g.k, g.hexp, g.att, g.n = z3.IntVal(0), g.h0, None, 0
        g.u0 = Vec("u0")
        w = World(shims(), rt)
        m = w.load("rkstiff.solveras")
        base = m.BaseSolverAS

        class V(base):
            def _reset(self):
                pass

            def _q(self):
                return q

            def _update_stages(self, u, h):
                return stub(rt, self, u, h)
        rt.begin([])
        if late:
            cfg = m.SolverConfig()
            s = V(Lin(), lambda u: u, config=cfg)
            for p, v in g.cfg.items():
                setattr(cfg, p, v)
        else:
            cfg = m.SolverConfig(**g.cfg)
            s = V(Lin(), lambda u: u, config=cfg)
        rt.begin([s])
        try:
            r = s.step(g.u0, g.h0)
        except base.MaxLoopsExceeded:
            if pid == "C05":
                c.prove(f"{FN}: too-many-attempts error only after 51 rejected attempts", g.k == 51, FN)
            reject(c, g)
            return "maxloops"
        except base.MinimumStepReached:
            if pid == "C05":
                c.prove(f"{FN}: minimum-step error only when the next step size is below minh",
                        XR._o(g.hexp).kind == "fin" and bool_expr(g.hexp < g.cfg["minh"]), FN)
                c.prove(f"{FN}: minimum-step error only after a rejected attempt", g.k >= 1, FN)
            reject(c, g)
            return "minh"
        except (ZeroDivisionError, AssertionError, ValueError, OverflowError, base.SolverError, UnboundLocalError) as e:
            c.prove(f"{FN}: no other exception", False, FN, repr(e))
            return "error"
        ok = isinstance(r, tuple) and len(r) == 3
        if not ok:
            c.prove(f"{FN}: returns (state, step size used, step size suggested)", False, FN, repr(r)[:200])
            return "error"
        un, hu, hs = r
        a = g.att
        if pid == "C04":
            c.prove(f"{FN}: returns only after an attempt that meets the tolerance", a is not None and a.accept, FN)
            if a is not None:
                c.prove(f"{FN}: returns the state of the accepted attempt", un is a.u, FN)
                c.prove(f"{FN}: reports the step size of the accepted attempt", equal(hu, g.hatt), FN)
        if pid == "C05" and a is not None and a.accept:
            cap = xr.pick(a.s, XR.const(4), lambda x, y: y < x)
            want = z3.If(bexpr(cap > g.cfg["incr_f"]), (cap * g.hatt).e, g.hatt.e)
            hs = XR._o(hs)
            c.prove(f"{FN}: suggested step size is min(s,4)*h if that exceeds incr_f*h, else h", hs.kind == "fin" and hs.e == want, FN)
            hu = XR._o(hu)
            c.prove(f"{FN}: contract used by evolve: 0 < h_used <= h", hu.kind == "fin" and z3.And(hu.e > 0, hu.e <= g.h0.e), FN)
            c.prove(f"{FN}: contract used by evolve: h_next >= h_used",
                    z3.simplify(z3.Or(want == g.hatt.e, z3.And(cap.e > 1, want == cap.e * g.hatt.e))), FN)
        return "ok"
    return run


def reject(c, g):
    if g.pid == "C04" and g.att is not None:
        c.prove(f"{FN}: an attempt that meets the tolerance is accepted", not g.att.accept, FN)


def bexpr(x):
    return x.e if isinstance(x, SBool) else z3.BoolVal(bool(x))


def bool_expr(x):
    return x.e if isinstance(x, SBool) else bool(x)


def attempt(pid, q, unroll, force, r, late=False):
    rt = RT(unroll, force)
    return houdini(rt, run_step(rt, pid, q, late), r, max_paths=4000, budget=150 if unroll is None else 40, stop=unroll is not None)


def one(pid, q, late=False):
    rep = core.Report()
    tag = f"[q={q}]"
    r = core.Report()
    try:
        outs = attempt(pid, q, None, None, r, late)
        kinds = {o[0][1] for o in outs if o[0][0] == "ok"}
        bad = r.refuted() + r.unknown()
        if not bad and not {"ok", "maxloops", "minh"} <= kinds:
            raise Unsupported(f"vacuous exploration: {kinds}")
        why = "; ".join(f"{n}: {r.obl[n]['detail'][:1]}" for n in bad)[:600]
    except Unsupported as e:
        bad, r, why = ["?"], None, str(e)
    if not bad:
        rename(r, tag)
        return r
    hit = []
    variants = [(1, None), (2, None), (60, {"state": ("nan",), "err": ("fin",)}), (54, {"state": ("pos",), "err": ("pinf",)}), (3, None)]
    for steps, force in variants:
        r2 = core.Report()
        try:
            attempt(pid, q, steps, force, r2, late)
        except Unsupported as e:
            why += f"; unrolled: {e}"
        hit = r2.refuted()
        if hit:
            break
    if hit:
        for n in list(r2.obl):
            if not r2.obl[n]["refuted"]:
                del r2.obl[n]
        rename(r2, tag + f" (unrolled {steps} attempt(s))")
        rep.merge(r2)
    else:
        rep.unsupported.append((FN + tag, why))
        if r is not None:
            for n in bad:
                r.obl.pop(n)
            rename(r, tag)
            rep.merge(r)
    return rep


def verify(pid, tier, rep):
    rep.assume("step-size control in real arithmetic extended by inf and nan (rounding of the factor and of the products is ignored)")
    rep.assume("finite configuration values with 0 <= adapt_cutoff < 1; h_suggest finite and > 0; norms of significant finite components are finite")
    rep.assume("x^(1/q) as an uninterpreted function, non-negative, zero only at zero and >= 1 exactly for x >= 1")
    rep.assume("step reaches _update_stages with any value; it is constrained only by what it returned (arbitrary state and estimate)")
    for r in parallel.run(one, [(pid, q) for q in (4, 5)]):
        rep.merge(r)
