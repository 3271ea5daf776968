"""Contracts of the configuration classes (C14).

The real SolverConfig and ETDConfig run on symbolic values: finite reals and Python integers of any size,
both infinities and NaN, as Python and numpy scalars.  Construction and assignment are explored path by path;
the outcome is compared with the documented range of each parameter, and the object afterwards (every
parameter and the whole instance state) with the specified one.  Because the instance state after any accepted
assignment is shown to be that of a freshly constructed object, the single-operation contracts cover every
sequence of operations.
"""
import math
import numbers
import types
import z3
from . import core, xr, parallel
from .core import Unsupported, SInt, SBool, mkbool
from .extract import World
from .runtime import Runtime, Shim, logging_shim, Missing, typelike
from .xr import XR, equal

SC = ["epsilon", "incr_f", "decr_f", "safety_f", "adapt_cutoff", "minh"]
EC = ["modecutoff", "contour_points", "contour_radius"]
DEF = dict(epsilon="1e-4", incr_f="1.25", decr_f="0.85", safety_f="0.8", adapt_cutoff="0.01", minh="1e-16", modecutoff="0.01",
           contour_points=32, contour_radius="1.0")
CLS = {"SolverConfig": ("rkstiff.solveras", SC), "ETDConfig": ("rkstiff.etd", EC)}


class NPFloating:
    """stand-in for numpy.floating in isinstance tests"""


class NPInteger:
    pass


class NPGeneric:
    pass


def npnum(x):
    p = XR._o(x)
    if p is None:
        raise Unsupported("numpy operation on a value that is not a number")
    return p


def numpy_scalar_shim():
    def f64(x=0):
        p = npnum(x)
        return XR(p.kind, p.e, True)
    return Shim("numpy", isnan=lambda x: xr.isnan(npnum(x)), isinf=lambda x: xr.isinf(npnum(x)), isfinite=lambda x: xr.isfinite(npnum(x)),
                float64=typelike(float, f64), floating=NPFloating, integer=NPInteger, generic=NPGeneric, number=NPGeneric,
                isscalar=lambda x: isinstance(x, (XR, SInt, int, float, str, complex)), inf=XR.const(math.inf), nan=XR.const(math.nan),
                ndim=lambda x: 0, isreal=lambda x: True, abs=abs, sign=Missing("numpy.sign"))


def math_shim():
    return Shim("math", isnan=lambda x: xr.isnan(npnum(x)), isinf=lambda x: xr.isinf(npnum(x)), isfinite=lambda x: xr.isfinite(npnum(x)),
                inf=XR.const(math.inf), nan=XR.const(math.nan), fabs=abs)


def operator_shim():
    import operator

    def index(x):
        if isinstance(x, SInt):
            return x
        if isinstance(x, XR):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return operator.index(x)
    return Shim("operator", **{**{k: v for k, v in vars(operator).items() if not k.startswith("_")}, "index": index})


class ConfigRuntime(Runtime):
    def lit(self, text):
        if "j" in text:
            raise Unsupported("complex literal")
        return XR.const(float(text))

    def isinstance_(self, x, c):
        if isinstance(c, types.UnionType):
            c = c.__args__
        cs = c if isinstance(c, tuple) else (c,)
        if isinstance(x, (XR, SInt)):
            return any(self.isinst1(x, k) for k in cs)
        return super().isinstance_(x, c)

    def isinst1(self, x, k):
        if isinstance(k, Missing):
            raise Unsupported("isinstance against a type without a contract model")
        if isinstance(k, (tuple, types.UnionType)):
            return self.isinstance_(x, k)
        t = getattr(k, "_rkv_type", k)
        if isinstance(x, SInt):
            return t in (int, object, numbers.Number, numbers.Complex, numbers.Real, numbers.Rational, numbers.Integral)
        return t in (float, object, numbers.Number, numbers.Complex, numbers.Real) or (x.np and t in (NPFloating, NPGeneric))

    def float_(self, *a):
        if a and isinstance(a[0], SInt):
            return XR("fin", z3.ToReal(a[0].e))
        if a and isinstance(a[0], (int, float)):
            return XR.const(a[0])
        return super().float_(*a)

    def numdiv(self, a, b):
        return XR.divide(XR._o(a), XR._o(b))

    def pow(self, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return XR._o(a) ** XR._o(b) if isinstance(a, float) or b < 0 else a ** b
        return a ** b

    def type_(self, *a):
        if len(a) == 1:
            if isinstance(a[0], (XR, SInt)):
                raise Unsupported("type of a symbolic number")
            return type(a[0])
        return type(*a)

    def builtins(self):
        b = super().builtins()
        b["type"] = typelike(type, self.type_)
        return b


def world():
    sh = {"numpy": numpy_scalar_shim(), "numpy.linalg": Missing("numpy.linalg"), "scipy.linalg": Missing("scipy.linalg"),
          "scipy": Missing("scipy"), "logging": logging_shim(), "math": math_shim(), "operator": operator_shim(), "sys": Missing("sys")}
    return World(sh, ConfigRuntime())


# ---------------------------------------------------------------- specification
RANGE = {
    "epsilon": lambda v: v > 0, "incr_f": lambda v: v > 1, "decr_f": lambda v: v < 1, "safety_f": lambda v: v <= 1,
    "adapt_cutoff": lambda v: v < 1, "minh": lambda v: v > 0, "modecutoff": lambda v: z3.And(v > 0, v <= 1), "contour_radius": lambda v: v > 0,
    "contour_points": lambda v: v > 1,
}
INFS = {  # which infinities satisfy the documented range
    "pinf": {"epsilon", "incr_f", "minh", "contour_radius"}, "ninf": {"decr_f", "safety_f", "adapt_cutoff"},
}


def valid(name, v):
    """z3 condition / bool: v is a documented value of parameter name"""
    if isinstance(v, SInt):
        return RANGE[name](v.e if name == "contour_points" else z3.ToReal(v.e))
    if isinstance(v, XR):
        if v.kind == "fin":
            return RANGE[name](v.e)
        return v.kind != "nan" and name in INFS[v.kind]
    raise TypeError


def fresh_valid(name, tag=""):
    """an arbitrary finite documented value"""
    c = core.ctx()
    v = SInt(c.fresh(name + tag, "Int")) if name == "contour_points" else XR.new(name + tag)
    c.assume(valid(name, v))
    return v


def value(name, kind):
    c = core.ctx()
    if kind == "real":
        return XR.new("value")
    if kind == "npreal":
        return XR.new("value", True)
    if kind == "int":
        return SInt(c.fresh("value", "Int"))
    if kind in ("pinf", "ninf", "nan"):
        return XR(kind)
    if kind in ("np-pinf", "np-ninf", "np-nan"):
        return XR(kind[3:], None, True)
    return {"str": "32", "none": None}[kind]


KINDS = ["real", "npreal", "int", "pinf", "ninf", "nan", "np-pinf", "np-ninf", "np-nan"]


def params(o, names):
    return {n: getattr(o, n) for n in names}


def state(o):
    d = dict(getattr(o, "__dict__", {}))
    for k in type(o).__mro__:
        s = getattr(k, "__slots__", ())
        for n in (s,) if isinstance(s, str) else s:
            if n not in ("__dict__", "__weakref__") and hasattr(o, n):
                d[n] = getattr(o, n)
    return d


def eq(a, b):
    """z3 condition or bool: same value"""
    if isinstance(a, (XR, SInt, int, float)) and isinstance(b, (XR, SInt, int, float)):
        return equal(a, b)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a is b or (isinstance(a, str) and a == b)
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        es = [eq(a[k], b[k]) for k in a]
        return conj(es)
    if isinstance(a, (list, tuple)) and type(a) is type(b) and len(a) == len(b):
        return conj([eq(x, y) for x, y in zip(a, b)])
    if type(a).__name__ == type(b).__name__ and type(a).__module__ == type(b).__module__ and hasattr(a, "__dict__") and not callable(a):
        return eq(vars(a), vars(b))
    return a is b


def conj(es):
    if any(e is False for e in es):
        return False
    es = [e for e in es if e is not True]
    return z3.And(es) if es else True


def numeric(v):
    return isinstance(v, (XR, SInt, int, float)) and not isinstance(v, bool)


class Job:
    def __init__(self, clsname, report):
        self.cn, self.rep = clsname, report
        self.mod, self.names = CLS[clsname]
        self.fn = f"{self.mod}.{clsname}"

    def cls(self):
        return getattr(world().load(self.mod), self.cn)

    def got(self, c, name, o, want, what):
        """every parameter of o has the wanted value"""
        for n in self.names:
            v = getattr(o, n)
            if not numeric(v):
                c.prove(f"{name}: {n} is a number {what}", v is want[n], f"{self.fn}.{n}", f"{n} reads {v!r}")
                continue
            c.prove(f"{name}: {n} {what}", eq(v, want[n]), f"{self.fn}.{n}", f"{n} reads {v!r}, wanted {want[n]!r};")

    def outcome(self, c, name, pname, v, call, fn):
        """True if accepted; obligations on acceptance and refusal"""
        ok = False if not isinstance(v, (XR, SInt)) else valid(pname, v)
        typed = pname == "contour_points" and not isinstance(v, SInt)
        exc = TypeError if typed else ValueError
        try:
            r = call()
        except (core.Control, Unsupported):
            raise
        except Exception as x:  # noqa: BLE001 - the code's own exception
            core.genuine(x)
            c.prove(f"{name}: a documented value is not refused", False if typed is False and ok is True else (True if typed else z3.Not(ok) if not isinstance(ok, bool) else not ok),
                    fn, f"refused with {type(x).__name__}: {x};")
            c.prove(f"{name}: refusal raises {exc.__name__}", isinstance(x, exc), fn, f"raised {type(x).__name__}: {x}")
            return False, None
        c.prove(f"{name}: only documented values are accepted", False if typed else ok, fn, f"value {v!r} of kind {getattr(v, 'kind', type(v).__name__)} was accepted;")
        return True, r

    def assign(self, pname, kind):
        def run(c):
            C = self.cls()
            want = {n: fresh_valid(n) for n in self.names}
            o = C(**want)
            other = C()
            oth = params(other, self.names)
            nm = f"{self.cn}.{pname} assignment"
            fn = f"{self.fn}.{pname}"
            v = value(pname, kind)
            before = state(o)
            ok, _ = self.outcome(c, nm, pname, v, lambda: setattr(o, pname, v), fn)
            if not ok:
                self.got(c, f"{nm} refused", o, want, "keeps its value")
                self.same_state(c, f"{nm} refused", state(o), before, fn)
                return
            new = dict(want)
            new[pname] = v
            self.got(c, f"{nm} accepted", o, new, "has the specified value")
            self.got(c, f"{nm} accepted, read again", o, new, "has the specified value")
            self.got(c, f"{nm}: another object", other, oth, "keeps its value")
            f = C(**new)
            self.same_state(c, f"{nm} accepted", state(o), state(f), fn)
        core.explore(run, self.rep)

    def same_state(self, c, name, a, b, fn):
        if not c.valid(eq(a, b)) and eq(a, b) is not True:
            raise Unsupported("the instance state after an assignment is not that of a fresh object: sequences are not covered by induction")
        self.rep.add(f"{name}: instance state is that of a freshly constructed object", core.PROVED, fn)

    def construct(self, pname, kind, pos):
        def run(c):
            C = self.cls()
            want = {n: fresh_valid(n) for n in self.names}
            v = want[pname] = value(pname, kind)
            nm = f"{self.cn} constructed with {pname}" + (" (positional)" if pos else "")
            fn = f"{self.fn}.__init__"
            first = C()
            ok, o = self.outcome(c, nm, pname, v, (lambda: C(*[want[n] for n in self.names])) if pos else (lambda: C(**want)), fn)
            dflt = {n: XR._o(DEF[n]) if isinstance(DEF[n], int) else XR.const(float(DEF[n])) for n in self.names}
            self.got(c, f"{self.cn}()", first, dflt, "has its documented default")
            if ok:
                self.got(c, nm, o, want, "is read back")
            self.got(c, f"{self.cn}() after another construction", C(), dflt, "has its documented default")
        core.explore(run, self.rep)

    def partial(self, pname):
        """one keyword only: the others take their defaults"""
        def run(c):
            C = self.cls()
            v = fresh_valid(pname)
            o = C(**{pname: v})
            want = {n: XR._o(DEF[n]) if isinstance(DEF[n], int) else XR.const(float(DEF[n])) for n in self.names}
            want[pname] = v
            self.got(c, f"{self.cn}({pname}=...)", o, want, "has the given value or its default")
        core.explore(run, self.rep)


def one(clsname, pname, what, kind):
    r = core.Report()
    j = Job(clsname, r)
    try:
        if what == "assign":
            j.assign(pname, kind)
        elif what == "partial":
            j.partial(pname)
        else:
            j.construct(pname, kind, what == "pos")
    except Unsupported as e:
        r.unsupported.append((f"{j.fn}.{pname} {what} {kind}", str(e)))
    return r


ASSUME = [
    "numbers: Python/numpy scalars as extended reals (finite values exact, kind of infinities and NaN by IEEE rules); float(value) of an "
    "integer is exact (integers beyond 2**53 round, beyond the double range raise OverflowError)",
    "values of types other than int, float, numpy float (and str/None for contour_points) are outside the contract",
]


def verify(pid, tier, rep):
    jobs = []
    for cn, (_, names) in CLS.items():
        for n in names:
            kinds = KINDS + (["str", "none"] if n == "contour_points" else [])
            jobs += [(cn, n, w, k) for w in ("assign", "ctor", "pos") for k in kinds] + [(cn, n, "partial", "")]
    for a in ASSUME:
        rep.assume(a)
    for r in parallel.run(one, jobs):
        rep.merge(r)
