"""Extended reals: the kind (finite, +inf, -inf, nan) is concrete on each path, finite values are z3 reals.

Machine arithmetic is treated as exact on finite values; inf/nan follow IEEE; numpy and Python scalars differ
only in division by zero (numpy: inf/nan, Python: ZeroDivisionError).
"""
import math
from fractions import Fraction as Fr
import z3
from . import core
from .core import Unsupported, SInt, SBool, mkbool, mkint

POW = {}


def rv(x):
    f = Fr(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def simplest(text):
    """simplest fraction denoted by a decimal literal (0.8 is 4/5)"""
    x = float(text)
    f = Fr(text.replace("_", "")) if "inf" not in text and "nan" not in text else None
    g = f.limit_denominator(10 ** 6)
    return g if float(g) == x else f


class XR:
    __slots__ = ("kind", "e", "np")

    def __init__(self, kind, e=None, np=False):
        self.kind, self.e, self.np = kind, e, np

    @staticmethod
    def fin(e, np=False):
        return XR("fin", e, np)

    @staticmethod
    def const(x, np=False):
        if isinstance(x, float):
            if math.isnan(x):
                return XR("nan", None, np)
            if math.isinf(x):
                return XR("pinf" if x > 0 else "ninf", None, np)
            x = simplest(repr(x))
        return XR("fin", rv(x), np)

    @staticmethod
    def new(name, np=False):
        return XR("fin", core.ctx().fresh(name), np)

    @staticmethod
    def _o(o):
        if isinstance(o, XR):
            return o
        if isinstance(o, bool):
            return XR.const(int(o))
        if isinstance(o, (int, float, Fr)):
            return XR.const(o)
        if isinstance(o, SInt):
            return XR("fin", z3.ToReal(o.e))
        return None

    def sgn(self):
        """-1, 0, 1; forks; nan gives None"""
        if self.kind == "nan":
            return None
        if self.kind == "pinf":
            return 1
        if self.kind == "ninf":
            return -1
        c = core.ctx()
        if c.decide(self.e > 0):
            return 1
        return 0 if c.decide(self.e == 0) else -1

    @property
    def isnan(self): return self.kind == "nan"
    @property
    def isinf(self): return self.kind in ("pinf", "ninf")

    # arithmetic
    def __neg__(self):
        k = {"pinf": "ninf", "ninf": "pinf"}.get(self.kind, self.kind)
        return XR(k, -self.e if k == "fin" else None, self.np)

    def __pos__(self): return self

    def __abs__(self):
        if self.kind == "fin":
            return XR("fin", z3.If(self.e >= 0, self.e, -self.e), self.np)
        return XR("nan" if self.isnan else "pinf", None, self.np)

    def _add(self, p, sub, rev):
        a, b = (p, self) if rev else (self, p)
        if sub:
            b = -b
        np = a.np or b.np
        if a.isnan or b.isnan or (a.isinf and b.isinf and a.kind != b.kind):
            return XR("nan", None, np)
        if a.isinf or b.isinf:
            return XR(a.kind if a.isinf else b.kind, None, np)
        return XR("fin", z3.simplify(a.e + b.e), np)

    def __add__(self, o):
        p = XR._o(o)
        return NotImplemented if p is None else self._add(p, False, False)

    def __radd__(self, o):
        p = XR._o(o)
        return NotImplemented if p is None else self._add(p, False, True)

    def __sub__(self, o):
        p = XR._o(o)
        return NotImplemented if p is None else self._add(p, True, False)

    def __rsub__(self, o):
        p = XR._o(o)
        return NotImplemented if p is None else self._add(p, True, True)

    def __mul__(self, o):
        p = XR._o(o)
        if p is None:
            return NotImplemented
        np = self.np or p.np
        if self.isnan or p.isnan:
            return XR("nan", None, np)
        if self.isinf or p.isinf:
            s, t = self.sgn(), p.sgn()
            if s * t == 0:
                return XR("nan", None, np)
            return XR("pinf" if s * t > 0 else "ninf", None, np)
        return XR("fin", z3.simplify(self.e * p.e), np)
    __rmul__ = __mul__

    @staticmethod
    def divide(a, b):
        np = a.np or b.np
        if a.isnan or b.isnan:
            return XR("nan", None, np)
        if b.kind == "fin":
            if core.ctx().decide(b.e == 0):
                if not np:
                    raise ZeroDivisionError("float division by zero")
                s = a.sgn()
                return XR("nan" if s == 0 else "pinf" if s > 0 else "ninf", None, np)
            if a.isinf:
                t = b.sgn()
                return a if t > 0 else -a
            return XR("fin", z3.simplify(a.e / b.e), np)
        if a.isinf:
            return XR("nan", None, np)
        return XR("fin", z3.RealVal(0), np)

    def __truediv__(self, o):
        p = XR._o(o)
        return NotImplemented if p is None else XR.divide(self, p)

    def __rtruediv__(self, o):
        p = XR._o(o)
        return NotImplemented if p is None else XR.divide(p, self)

    def __pow__(self, o):
        p = XR._o(o)
        if p is None:
            return NotImplemented
        np = self.np or p.np
        if p.kind != "fin" or not z3.is_rational_value(z3.simplify(p.e)):
            raise Unsupported("power with an unknown exponent")
        y = z3.simplify(p.e)
        y = Fr(y.numerator_as_long(), y.denominator_as_long())
        if y == 0:
            return XR.const(1, np)
        if y < 0:
            return XR.divide(XR.const(1, np), self) ** XR.const(-y, np)
        if y == 1:
            return self
        if self.kind == "pinf":
            return XR("pinf", None, np)
        if self.kind == "ninf":
            raise Unsupported("power of -inf")
        if self.isnan:
            return XR("nan", None, np)
        if y.denominator == 1 and y <= 8:
            r = self
            for _ in range(int(y) - 1):
                r = r * self
            return r
        if self.sgn() == -1:
            return XR("nan", None, np)
        P = POW.setdefault(y, z3.Function(f"pow_{y.numerator}_{y.denominator}", z3.RealSort(), z3.RealSort()))
        t = P(z3.simplify(self.e))
        c = core.ctx()
        c.assume(z3.And(t >= 0, (t == 0) == (self.e == 0), (t >= 1) == (self.e >= 1)))
        return XR("fin", t, np)

    def __rpow__(self, o):
        p = XR._o(o)
        return NotImplemented if p is None else p ** self

    # comparison
    def _cmp(self, o, f, inf):
        p = XR._o(o)
        if p is None:
            return NotImplemented
        if self.isnan or p.isnan:
            return False
        if self.kind == "fin" and p.kind == "fin":
            return mkbool(f(self.e, p.e))
        v = {"ninf": -1, "fin": 0, "pinf": 1}
        return inf(v[self.kind], v[p.kind])

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)
        return False if r is NotImplemented and (o is None or isinstance(o, str)) else r

    def __ne__(self, o):
        p = XR._o(o)
        if p is None:
            return True if o is None or isinstance(o, str) else NotImplemented
        if self.isnan or p.isnan:
            return True
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __bool__(self):
        if self.kind != "fin":
            return True
        return core.ctx().decide(self.e != 0)

    def __hash__(self):
        raise Unsupported("hash of a real")

    def _rkv_float(self): return XR(self.kind, self.e, False)

    def _rkv_int(self):
        if self.isnan:
            raise ValueError("cannot convert float NaN to integer")
        if self.isinf:
            raise OverflowError("cannot convert float infinity to integer")
        e = self.e
        return mkint(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))

    def is_integer(self):
        return False if self.kind != "fin" else mkbool(z3.IsInt(self.e))

    def _rkv_round(self, *a):
        raise Unsupported("rounding")

    def __format__(self, s): return "<real>"
    def __repr__(self): return f"<XR {self.kind} {self.e}>"
    __str__ = __repr__

    @staticmethod
    def _rkv_isinstance(x, k):
        t = getattr(k, "_rkv_type", k)
        return t is float or t is object

    def item(self): return self._rkv_float()
    @property
    def real(self): return self
    @property
    def imag(self): return XR.const(0)
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0


def equal(a, b):
    """z3 condition: same extended real"""
    a, b = XR._o(a), XR._o(b)
    if a is None or b is None:
        return False
    if a.kind != b.kind:
        return False
    if a.kind != "fin":
        return True
    return z3.simplify(a.e == b.e)


def isnan(x):
    x = XR._o(x)
    if x is None:
        raise Unsupported("isnan of this value")
    return x.isnan


def isinf(x):
    x = XR._o(x)
    if x is None:
        raise Unsupported("isinf of this value")
    return x.isinf


def isfinite(x):
    return not isnan(x) and not isinf(x)


def npmax(vals, sign=1):
    """np.max / np.min: nan propagates"""
    vals = [XR._o(v) for v in vals]
    if any(v is None for v in vals):
        raise Unsupported("max of these values")
    if any(v.isnan for v in vals):
        return XR("nan", None, True)
    r = vals[0]
    for v in vals[1:]:
        r = pick(r, v, (lambda x, y: y > x) if sign > 0 else (lambda x, y: y < x))
    return XR(r.kind, r.e, True)


def pick(r, x, better):
    t = better(r, x)
    if isinstance(t, bool):
        return x if t else r
    if r.kind == "fin" and x.kind == "fin":
        return XR("fin", z3.If(t.e, x.e, r.e), r.np or x.np)
    return x if bool(t) else r
