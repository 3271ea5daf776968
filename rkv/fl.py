"""Floating-point numbers as z3 reals with rounding facts (IEEE double, round to nearest, no overflow).

Every operation rounds: r = rnd(x) with |r-x| <= 2^-53 |x| (no overflow or underflow), monotone with respect to every
float seen on the path (so exactly representable results are exact) and functional in x.
"""
import z3
from fractions import Fraction as Fr
from . import core
from .core import Unsupported, SInt, SBool, mkbool, mkint, Opaque

U = z3.RealVal("1/9007199254740992")           # 2^-53
TINY = z3.RealVal(str(Fr(1, 2 ** 1074)))


def rv(x):
    f = Fr(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


class Tab:
    """per-path rounding table"""

    def __init__(self):
        self.floats = []     # z3 reals known to be floats
        self.rnds = []       # (x, r)
        self.memo = {}

    def snapshot(self):
        return list(self.floats), list(self.rnds), dict(self.memo)

    def restore(self, s):
        self.floats, self.rnds, self.memo = s


def tab():
    c = core.ctx()
    if "fl" not in c.data:
        c.data["fl"] = Tab()
        declare(z3.RealVal(0))
    return c.data["fl"]


def lemma(x, r, y, s):
    """x >= y => r >= s and x <= y => r <= s, added to the solver only where a candidate model violates it"""
    c = core.ctx()
    c.lazy.append(z3.Implies(x >= y, r >= s))
    c.lazy.append(z3.Implies(x <= y, r <= s))


def declare(e):
    t = core.ctx().data["fl"] if "fl" in core.ctx().data else tab()
    for f in t.floats:
        if z3.eq(f, e):
            return
    c = core.ctx()
    for x, r in t.rnds:
        lemma(x, r, e, e)
    t.floats.append(e)


def rnd(x, exact_tiny=True):
    """the float nearest to the real x"""
    t, c = tab(), core.ctx()
    k0 = x.get_id()
    if k0 in t.memo:
        return t.memo[k0][1]
    x0 = x
    x = z3.simplify(x)
    if z3.is_rational_value(x):
        f = float(Fr(x.numerator_as_long(), x.denominator_as_long()))
        e = rv(f)
        declare(e)
        return e
    for f in t.floats:
        if z3.eq(f, x):
            return x
    k = x.get_id()
    if k in t.memo:
        t.memo[k0] = (x0, t.memo[k][1])
        return t.memo[k][1]
    r = c.fresh("rnd")
    ax = z3.If(x >= 0, x, -x)
    err = U * ax
    c.assume(z3.And(r - x <= err, x - r <= err))
    for f in t.floats:
        lemma(x, r, f, f)
    for x2, r2 in t.rnds:
        lemma(x, r, x2, r2)
    t.floats.append(r)
    t.rnds.append((x, r))
    t.memo[k] = (x, r)
    t.memo[k0] = (x0, r)
    return r


class FL:
    """a double"""
    __slots__ = ("_e", "x", "np")

    def __init__(self, e, np=False, x=None):
        self._e = e
        self.x = x          # value still to be rounded (rounded only if it is used)
        self.np = np

    @property
    def e(self):
        return self._e if self._e is not None else rnd(self.x)

    def sign0(self):
        """an expression that is zero exactly if the value is (rounding keeps zero and non-zero apart)"""
        return self._e if self._e is not None else self.x

    @staticmethod
    def new(name, np=False):
        e = core.ctx().fresh(name)
        declare(e)
        return FL(e, np)

    @staticmethod
    def const(x):
        e = rv(float(x))
        tab()
        declare(e)
        return FL(e)

    def isconst(self):
        return self._e is not None and z3.is_rational_value(z3.simplify(self._e))

    def cval(self):
        x = z3.simplify(self.e)
        return Fr(x.numerator_as_long(), x.denominator_as_long())

    def _o(self, o):
        if isinstance(o, FL):
            return o
        if isinstance(o, bool):
            return FL.const(float(o))
        if isinstance(o, (int, float)):
            return FL.const(float(o))
        if isinstance(o, SInt):
            # assumption: step counts stay below 2^53, so the conversion to float is exact
            e = z3.ToReal(o.e)
            declare(e)
            return FL(e)
        return None

    def _lin(self, o, f):
        p = self._o(o)
        if p is None:
            return NotImplemented
        return FL(None, self.np or p.np, f(self.e, p.e))

    def __add__(self, o): return self._lin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._lin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._lin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._lin(o, lambda a, b: b - a)
    def __neg__(self):
        declare(z3.simplify(-self.e))
        return FL(z3.simplify(-self.e), self.np)

    def __pos__(self):
        return self

    def __abs__(self):
        e = z3.If(self.e >= 0, self.e, -self.e)
        declare(e)
        return FL(e, self.np)

    def __mul__(self, o):
        if isinstance(o, SInt):
            h = core.ctx().data.get("kmul")
            if h is not None:
                r = h(o, self)
                if r is not None:
                    return FL(None, self.np, r)
        p = self._o(o)
        if p is None:
            return NotImplemented
        if self.isconst() and p.isconst():
            return FL.const(float(self.cval()) * float(p.cval()))
        if self.isconst() or p.isconst():
            return FL(None, self.np or p.np, z3.simplify(self.e) * z3.simplify(p.e))
        return self._opaque("product", p)

    __rmul__ = __mul__

    def _opaque(self, what, p):
        # a float nothing is known about
        return FL(core.ctx().fresh(what), self.np or p.np)

    def __truediv__(self, o):
        p = self._o(o)
        if p is None:
            return NotImplemented
        if core.ctx().decide(p.sign0() == 0):
            if self.np or p.np:
                raise Unsupported("division of numpy floats by zero")
            raise ZeroDivisionError("float division by zero")
        if p.isconst():
            return FL(None, self.np or p.np, self.e / z3.simplify(p.e))
        return self._opaque("quotient", p)

    def __rtruediv__(self, o):
        p = self._o(o)
        if p is None:
            return NotImplemented
        return p.__truediv__(self)

    def __mod__(self, o):
        raise Unsupported("remainder of floats")

    __floordiv__ = __rfloordiv__ = __rmod__ = __mod__

    def __pow__(self, o):
        raise Unsupported("power of a float")
    __rpow__ = __pow__

    def _cmp(self, o, f):
        p = self._o(o)
        if p is None:
            return NotImplemented
        return mkbool(f(self.e, p.e))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented and (o is None or isinstance(o, str)) else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented and (o is None or isinstance(o, str)) else r

    def __bool__(self):
        return core.ctx().decide(self.e != 0)

    def __hash__(self):
        raise Unsupported("hash of a float")

    def _rkv_float(self): return self

    def _rkv_int(self):
        raise Unsupported("integer part of a float")

    def __int__(self):
        raise Unsupported("integer part of a float")

    def __float__(self):
        raise Unsupported("native float of a symbolic one")

    def _rkv_round(self, *a):
        raise Unsupported("rounding of a float")

    def __format__(self, s): return "<float>"
    def __repr__(self): return f"<FL {self.e}>"
    __str__ = __repr__

    @staticmethod
    def _rkv_isinstance(x, k):
        return k is float or getattr(k, "_rkv_type", None) is float or k is object

    def item(self): return self
    @property
    def real(self): return self


def fmax(a, b):
    return FL(z3.If(a.e >= b.e, a.e, b.e), a.np or b.np)
