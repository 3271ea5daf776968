"""Scalar domain of the spectral properties: exact symbolic expressions with a decision procedure for equality.

A scalar is an exact expression (sympy) over integer indices, real/complex parameters, elements of opaque arrays,
exponentials, sums over index ranges and discrete Fourier transforms.  Equality is decided by normal forms: an
equality is *proved* only when the difference normalises to 0; it is *refuted* only when a concrete instance that
satisfies the path condition makes the difference numerically nonzero; otherwise it stays unknown.
"""
import itertools
import math
import random
import zlib
from fractions import Fraction
import sympy as sp
import z3
from . import core
from .core import Unsupported, SInt, SBool, mkint, mkbool, PROVED, REFUTED, UNKNOWN

I = sp.I
COUNT = itertools.count(1)


def tab(name, default=dict):
    """per-path table"""
    d = core.ctx().data
    if name not in d:
        d[name] = default()
    return d[name]


# ---------------------------------------------------------------- z3 <-> sympy
def intsym(name):
    s = sp.Symbol(name, integer=True, **tab("range").get(name, {}))
    tab("zint")[s] = z3.Int(name)
    return s


def realsym(name):
    s = sp.Symbol(name, real=True, **tab("range").get(name, {}))
    tab("zreal")[s] = z3.Real(name)
    return s


def new_int(name, lo=None):
    c = core.ctx()
    e = c.fresh(name, "Int")
    if lo is not None and lo >= 0:
        tab("range")[str(e)] = {"positive": True} if lo > 0 else {"nonnegative": True}
    intsym(str(e))
    if lo is not None:
        c.assume(e >= lo)
    return SInt(e)


def new_real(name, kind="f", positive=False):
    c = core.ctx()
    e = c.fresh(name, "Real")
    if positive:
        c.assume(e > 0)
        tab("range")[str(e)] = {"positive": True}
    return Sc(realsym(str(e)), kind)


def sy(x):
    """sympy form of an int, a symbolic int or a z3 integer term"""
    if isinstance(x, SInt):
        x = x.e
    if isinstance(x, int):
        return sp.Integer(x)
    k = x.get_id()
    t = tab("sy")
    if k in t:
        return t[k][1]
    r = sp.expand(_sy(x))
    t[k] = (x, r)
    return r


def _sy(x):
    if z3.is_int_value(x):
        return sp.Integer(x.as_long())
    d = x.decl()
    ch = x.children()
    k = d.kind()
    if k == z3.Z3_OP_UNINTERPRETED and not ch:
        return intsym(d.name())
    if k == z3.Z3_OP_ADD:
        return sp.Add(*[sy(a) for a in ch])
    if k == z3.Z3_OP_SUB:
        return sy(ch[0]) - sp.Add(*[sy(a) for a in ch[1:]])
    if k == z3.Z3_OP_UMINUS:
        return -sy(ch[0])
    if k == z3.Z3_OP_MUL:
        return sp.Mul(*[sy(a) for a in ch])
    if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(ch[1]):
        m = ch[1].as_long()
        r = residue(ch[0], m)
        return sp.Integer(r) if k == z3.Z3_OP_MOD else (sy(ch[0]) - r) / m
    if k == z3.Z3_OP_ITE:
        return sy(ch[1]) if core.ctx().decide(ch[0]) else sy(ch[2])
    raise Unsupported(f"integer term {d.name()}")


def residue(e, m):
    c = core.ctx()
    if m > 12:
        raise Unsupported("remainder by a large number")
    for r in range(m - 1):
        if c.decide(e % m == r):
            return r
    return m - 1


def to_z3(e):
    """z3 real term of a polynomial in known symbols, None if it is something else"""
    zi, zr = tab("zint"), tab("zreal")
    if e.is_Integer:
        return z3.RealVal(int(e))
    if e.is_Rational:
        return z3.RealVal(f"{e.p}/{e.q}")
    if e.is_Symbol:
        if e in zi:
            return z3.ToReal(zi[e])
        return zr.get(e)
    if e == sp.pi:
        p = z3.Real("pi!")
        c = core.ctx()
        c.assume(z3.And(p > z3.Q(31415926535, 10**10), p < z3.Q(31415926536, 10**10)))
        return p
    if e.is_Add or e.is_Mul:
        xs = [to_z3(a) for a in e.args]
        if any(x is None for x in xs):
            return None
        r = xs[0]
        for x in xs[1:]:
            r = r + x if e.is_Add else r * x
        return r
    if e.is_Pow and e.exp.is_Integer:
        b = to_z3(e.base)
        if b is None or abs(int(e.exp)) > 6:
            return None
        r = z3.RealVal(1)
        for _ in range(abs(int(e.exp))):
            r = r * b
        return r if e.exp > 0 else 1 / r
    return None


def to_int(e):
    """SInt/int of an integer-valued expression, truncated when it is a rational combination of integers"""
    e = sp.expand(e)
    if e.is_Integer:
        return int(e)
    den = 1
    for t in sp.Add.make_args(e):
        q = t.as_coeff_Mul()[0]
        if not q.is_Rational:
            raise Unsupported("conversion to int")
        den = den * q.q // math.gcd(den, q.q)
    z = to_z3int(sp.expand(e * den))
    if z is None:
        raise Unsupported("conversion to int")
    if den == 1:
        return mkint(z)
    if core.ctx().decide(z >= 0):
        return mkint(z / den)
    return mkint(-((-z) / den))


def to_z3int(e):
    zi = tab("zint")
    if e.is_Integer:
        return z3.IntVal(int(e))
    if e.is_Symbol:
        return zi.get(e)
    if e.is_Add or e.is_Mul:
        xs = [to_z3int(a) for a in e.args]
        if any(x is None for x in xs):
            return None
        r = xs[0]
        for x in xs[1:]:
            r = r + x if e.is_Add else r * x
        return r
    if e.is_Pow and e.exp.is_Integer and 0 < e.exp < 6:
        b = to_z3int(e.base)
        if b is None:
            return None
        r = b
        for _ in range(int(e.exp) - 1):
            r = r * b
        return r
    return None


# ---------------------------------------------------------------- normal form
def sign(s):
    """(-1)**s for an integer symbol s"""
    return sp.Symbol(f"sg[{s.name}]", real=True)


def is_sign(s):
    return s.is_Symbol and s.name.startswith("sg[")


_NF = {}


def nf(e):
    r = _NF.get(e)
    if r is None:
        r = _NF[e] = _nf(e)
        if len(_NF) > 50000:
            _NF.clear()
    return r


def int_valued(e):
    return e.is_integer is True


def minus_one_pow(x):
    """(-1)**x, x an integer combination of integer symbols"""
    r = sp.Integer(1)
    for t in sp.Add.make_args(sp.expand(x)):
        c, m = t.as_coeff_Mul()
        if not c.is_Integer:
            return sp.Pow(-1, x, evaluate=False)
        if m == 1:
            r *= (-1) ** int(c)
        elif int(c) % 2 == 0 and m.is_integer:
            continue
        elif m.is_Symbol:
            r *= sign(m)
        else:
            return sp.Pow(-1, x, evaluate=False)
    return r


def cexp(a):
    """exp(a) with integer multiples of I*pi reduced to signs and the argument split into products"""
    r = sp.Integer(1)
    rest = []
    for t in sp.Add.make_args(sp.expand(a)):
        q = t / (I * sp.pi)
        c, m = q.as_coeff_Mul()
        if m == 1 and c.is_Rational:
            rest.append(t)
        elif c.is_Integer and m.is_integer and m.is_Symbol:
            r *= sign(m) if int(c) % 2 else 1
        elif c.is_Integer and m.is_integer and int(c) % 2 == 0:
            continue
        elif c.is_Rational and m.is_Symbol and m.is_integer and abs(c.p) > c.q:
            k = int(sp.floor(c))
            r *= sign(m) if k % 2 else 1
            rest.append(I * sp.pi * (c - k) * m)
        else:
            rest.append(t)
    for t in rest:
        r *= sp.exp(t)
    return r


def _nf(e):
    if e.is_Atom:
        return e
    a = [nf(x) for x in e.args]
    if e.is_Add:
        return sp.Add(*a)
    if e.is_Mul:
        return flat(sp.Mul(*a))
    if e.is_Pow:
        return power(*a)
    f = e.func
    if f is sp.exp:
        return cexp(a[0])
    if f is sp.cos:
        p, m = cexp(I * a[0]), cexp(-I * a[0])
        return (p + m) / 2
    if f is sp.sin:
        p, m = cexp(I * a[0]), cexp(-I * a[0])
        return (p - m) / (2 * I)
    if f is sp.tan:
        return nf(sp.sin(a[0])) / nf(sp.cos(a[0]))
    if f is sp.cosh:
        return (cexp(a[0]) + cexp(-a[0])) / 2
    if f is sp.sinh:
        return (cexp(a[0]) - cexp(-a[0])) / 2
    if f is sp.tanh:
        return nf(sp.sinh(a[0])) / nf(sp.cosh(a[0]))
    if f is sp.sech:
        return 1 / nf(sp.cosh(a[0]))
    return f(*[sp.expand(x) for x in a])


def power(b, x):
    if b == -1 and int_valued(x):
        return minus_one_pow(x)
    if b == I and int_valued(x) and not x.is_Number:
        # I**(2y + r)
        r = sp.Integer(1)
        for t in sp.Add.make_args(sp.expand(x)):
            c, m = t.as_coeff_Mul()
            if m != 1 and c.is_Integer and int(c) % 2 == 0:
                r *= minus_one_pow(t / 2)
            else:
                r *= sp.Pow(I, t)
        return r
    if is_sign(b) and x.is_Integer:
        return b if int(x) % 2 else sp.Integer(1)
    if b.is_Mul and int_valued(x):
        return flat(sp.Mul(*[power(t, x) for t in b.args]))
    if b.is_Pow and int_valued(x):
        return power(b.base, sp.expand(b.exp * x))
    if b.is_Rational and not b.is_Integer and int_valued(x) and not x.is_Number:
        return power(sp.Integer(b.p), x) * power(sp.Integer(b.q), -x)
    if b.is_Integer and b < -1 and int_valued(x) and not x.is_Number:
        return minus_one_pow(x) * sp.Pow(-b, x)
    if b.func is sp.exp and x.is_Integer:
        return cexp(b.args[0] * x)
    return sp.Pow(b, x)


def merge(ts):
    """b**x * b**y = b**(x + y) for exponents that are non-negative integers (b may be zero)"""
    by = {}
    for t in ts:
        b, x = t.as_base_exp()
        if int_valued(x) and x.is_nonnegative:
            by.setdefault(b, []).append(x)
    if all(len(v) < 2 for v in by.values()):
        return ts
    out = []
    for t in ts:
        b, x = t.as_base_exp()
        if not (int_valued(x) and x.is_nonnegative):
            out.append(t)
        elif b in by:
            x = sp.Add(*by.pop(b))
            out.append(b if x == 1 else power(b, sp.expand(x)))
    return out


def flat(e):
    """reduce sign powers in a product"""
    if e.is_Mul:
        out = []
        for t in e.args:
            if t.is_Pow and is_sign(t.base) and t.exp.is_Integer:
                t = t.base if int(t.exp) % 2 else sp.Integer(1)
            elif t.is_Pow and t.base == I and not t.exp.is_Number and int_valued(t.exp):
                t = power(I, t.exp)
            out.append(t)
        return sp.Mul(*merge(out))
    if e.is_Pow and is_sign(e.base) and e.exp.is_Integer:
        return e.base if int(e.exp) % 2 else sp.Integer(1)
    return e


def poly(e):
    """expanded form with reduced signs and exponentials"""
    e = sp.expand(e)
    return sp.Add(*[flat(nf(t)) for t in sp.Add.make_args(e)])


def numer(e):
    e = nf(e)
    p = poly(e)
    if p == 0:
        return p
    n, _ = sp.fraction(sp.together(e))
    for _ in range(3):
        m = poly(n)
        if m == n:
            break
        n = m
    return n


def plain_zero(e):
    return numer(e) == 0


# ---------------------------------------------------------------- scalars
RANK = {"b": 0, "i": 1, "f": 2, "c": 3}


def kmax(*ks):
    return max(ks, key=lambda k: RANK[k])


class Sc:
    """number: exact expression and kind (i integer, f real, c complex)"""
    __slots__ = ("e", "k")

    def __init__(self, e, k="f"):
        self.e = sp.sympify(e)
        self.k = k

    # arithmetic
    def _b(self, o, f):
        o = scalar(o)
        if o is None:
            return NotImplemented
        return Sc(f(self.e, o.e), kmax(self.k, o.k, "i"))

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return Sc(-self.e, self.k)
    def __pos__(self): return self

    def __truediv__(self, o):
        o = scalar(o)
        return NotImplemented if o is None else divide(self, o)

    def __rtruediv__(self, o):
        o = scalar(o)
        return NotImplemented if o is None else divide(o, self)

    def __pow__(self, o):
        o = scalar(o)
        return NotImplemented if o is None else scpow(self, o)

    def __rpow__(self, o):
        o = scalar(o)
        return NotImplemented if o is None else scpow(o, self)

    def __abs__(self):
        return Sc(sabs(self.e), "f" if self.k == "c" else self.k)

    def _whole(self, o, f):
        o = scalar(o)
        if o is None:
            return NotImplemented
        if self.k != "i" or o.k != "i":
            raise Unsupported("floor division or remainder of a real number")
        return scalar(f(to_int(self.e), to_int(o.e)))

    def __floordiv__(self, o): return self._whole(o, lambda a, b: a // b)
    def __rfloordiv__(self, o): return self._whole(o, lambda a, b: b // a)
    def __mod__(self, o): return self._whole(o, lambda a, b: a % b)
    def __rmod__(self, o): return self._whole(o, lambda a, b: b % a)

    def __index__(self):
        if self.k != "i":
            raise TypeError("'float' object cannot be interpreted as an integer")
        r = to_int(self.e)
        if isinstance(r, int):
            return r
        raise Unsupported("symbolic integer used as an index")

    # comparison
    def cond(self, o, f):
        """z3 condition"""
        if self.e is sp.nan or o.e is sp.nan:
            return False
        if self.k == "c" or o.k == "c":
            raise Unsupported("comparison of complex numbers")
        d = to_z3(sp.expand(self.e - o.e))
        if d is None:
            s = self.e - o.e
            if s.is_number:
                return bool(f(s, 0))
            raise Unsupported("comparison of this expression")
        return f(d, 0)

    def _c(self, o, f):
        o = scalar(o)
        if o is None:
            return NotImplemented
        r = self.cond(o, f)
        return r if isinstance(r, bool) else mkbool(r)

    def __lt__(self, o): return self._c(o, lambda d, z: d < z)
    def __le__(self, o): return self._c(o, lambda d, z: d <= z)
    def __gt__(self, o): return self._c(o, lambda d, z: d > z)
    def __ge__(self, o): return self._c(o, lambda d, z: d >= z)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        if isinstance(o, Sc) and self.e == o.e and self.e is not sp.nan:
            return True
        return self._c(o, lambda d, z: sp.Eq(d, z) if isinstance(d, sp.Basic) else d == z)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))
    __hash__ = None

    def __bool__(self):
        r = self.__ne__(0)
        return bool(r)

    # numpy scalar interface
    ndim = 0
    shape = ()
    size = 1

    @property
    def real(self): return Sc(sp.re(self.e), "f") if self.k == "c" else self

    @property
    def imag(self): return Sc(sp.im(self.e), "f") if self.k == "c" else Sc(0, self.k)

    def conjugate(self): return Sc(sp.conjugate(self.e), self.k)
    conj = conjugate
    def item(self): return self
    def copy(self): return self

    def is_integer(self):
        if self.e.is_integer is None:
            raise Unsupported("is_integer of a real number")
        return bool(self.e.is_integer)

    def _rkv_float(self):
        if self.k == "c":
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        return Sc(self.e, "f")

    def _rkv_int(self):
        if self.e is sp.nan:
            raise ValueError("cannot convert float NaN to integer")
        return to_int(self.e)

    def _rkv_round(self, *a):
        if not a and self.e.is_integer:
            return to_int(self.e)
        raise Unsupported("rounding of a real number")

    def __format__(self, s): return "<number>"
    def __repr__(self): return f"<{self.e}>"


def sabs(e):
    if e.is_Symbol or e.is_Add or e.is_Mul:
        z = to_z3(e)
        if z is not None:
            return e if core.ctx().decide(z >= 0) else -e
    return sp.Abs(e)


def divide(a, b):
    if b.e.is_number:
        if b.e.is_zero:
            raise ZeroDivisionError("division by zero")
    else:
        z = to_z3(b.e)
        if z is not None and core.ctx().decide(z == 0):
            raise Unsupported("division by zero")
    return Sc(a.e / b.e, kmax(a.k, b.k, "f"))


def scpow(a, b):
    k = kmax(a.k, b.k, "i")
    if k == "i" and not (b.e.is_nonnegative or (b.e.is_Integer and b.e >= 0)):
        z = to_z3(b.e)
        if z is None or core.ctx().decide(z < 0):
            k = "f"
    return Sc(nf(sp.Pow(a.e, b.e)) if int_valued(b.e) else sp.Pow(a.e, b.e), k)


def scalar(o):
    if isinstance(o, Sc):
        return o
    if isinstance(o, bool):
        return Sc(int(o), "i")
    if isinstance(o, int):
        return Sc(o, "i")
    if isinstance(o, SInt):
        return Sc(sy(o), "i")
    if isinstance(o, SBool):
        return Sc(1 if o else 0, "i")
    if isinstance(o, float):
        if o != o:
            return Sc(sp.nan)
        if o in (math.inf, -math.inf):
            raise Unsupported("infinite number")
        return Sc(sp.Rational(Fraction(o)), "f")
    if isinstance(o, Fraction):
        return Sc(sp.Rational(o.numerator, o.denominator), "f")
    if isinstance(o, complex):
        return Sc(sp.Rational(Fraction(o.real)) + I * sp.Rational(Fraction(o.imag)), "c")
    return None


# ---------------------------------------------------------------- opaque functions, transforms, sums
class Meta:
    """what an applied symbol means (for numerical instances and for linear reasoning)"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


def opaque(name, k):
    """function symbol for the elements of an unknown array"""
    f = sp.Function(name, real=True) if k != "c" else sp.Function(name, complex=True)
    tab("meta")[name] = Meta("opaque", k=k)
    return f


def special(name):
    f = sp.Function(name, real=True)
    tab("meta")[name] = Meta("special")
    return f


BV = "b!"


def bound():
    """the bound index of canonical operands"""
    return SInt(z3.Int(BV)), intsym(BV)


# ---------------------------------------------------------------- local exploration over a bounded index
def explore_local(body, low, high, limit=64):
    """runs body(b) for a fresh index low <= b < high on every region; returns [(b, facts, result)]"""
    c = core.ctx()
    n = next(COUNT)
    name = f"s!{n}"
    intsym(name)
    b = SInt(z3.Int(name))
    stack = [[]]
    out = []
    saved = c.local, c.localfacts
    try:
        while stack:
            prefix = stack.pop()
            if len(out) > limit:
                raise Unsupported("too many regions under a sum")
            c.push()
            sv = c._saved, c._lz
            memo = dict(tab("sy"))
            try:
                c.local = (prefix, [], [])
                c.localfacts = []
                c.solver.add(b.e >= iz(low), b.e < iz(high))
                try:
                    if c.solver.check() == z3.unsat:
                        continue
                    out.append((b, list(c.localfacts), body(b), list(c.localfacts)))
                except core.Infeasible:
                    pass
                stack.extend(c.local[2])
            finally:
                c._saved, c._lz = sv
                c.pop()
                c.data["sy"] = memo
                c.local, c.localfacts = saved
    finally:
        c.local, c.localfacts = saved
    return [(b, f2, r) for b, _, r, f2 in out]


def iz(x):
    return x.e if isinstance(x, SInt) else z3.IntVal(int(x)) if isinstance(x, int) else x


def region(facts, body):
    """run body under additional facts (of a region that is known)"""
    c = core.ctx()
    c.push()
    sv = c._saved, c._lz
    memo = dict(tab("sy"))
    try:
        for f in facts:
            c.solver.add(f)
        return body()
    finally:
        c._saved, c._lz = sv
        c.pop()
        c.data["sy"] = memo


def make_sum(f, low, high, k):
    """sum of f(j) (a sympy expression) over low <= j < high as an atom"""
    n = next(COUNT)
    s = sp.Symbol(f"SUM[{n}]", complex=True) if k == "c" else sp.Symbol(f"SUM[{n}]", real=True)
    tab("sums")[s] = (f, low, high)
    return s


# ---------------------------------------------------------------- deciding equality
def candidates():
    c = core.ctx()
    return list(c.data.get("points", []))


def mentions(e, sym):
    return sym in e.free_symbols


def is_zero(e, depth=0):
    """True if e = 0 on this path (may fork the path), None if that could not be shown"""
    c = core.ctx()
    sums = tab("sums")
    e = numer(e) if not any(s in sums for s in e.free_symbols) else linear_part(e)
    if e == 0:
        return True
    ss = sorted((s for s in e.free_symbols if s in sums), key=lambda s: s.name)
    if not ss:
        return True if refine_zero(e) else None
    if depth > 3:
        return None
    groups = {}
    rest = e
    for s in ss:
        co = e.coeff(s)
        if sp.expand(e - co * s).has(s) or any(t in sums for t in co.free_symbols):
            return None
        f, lo, hi = sums[s]
        groups.setdefault((sy(lo), sy(hi)), []).append((co, f, lo, hi))
        rest = sp.expand(rest - co * s)
    for terms in groups.values():
        lo, hi = terms[0][2:]

        def h(b):
            return sp.Add(*[co * f(b) for co, f, _, _ in terms])
        for b, facts, val in explore_local(h, lo, hi):
            def gen():
                r = is_zero(val, depth + 1)
                if r:
                    return "zero", None
                for t in candidates():
                    if c.valid(b.e == iz(t)):
                        return "point", t
                return "no", None
            inner = [b.e >= iz(lo), b.e < iz(hi)] + facts
            r, t = region(inner, lambda: localised(gen))
            if r == "no":
                return None
            if r == "point":
                cond = z3.And([z3.substitute(x, (b.e, iz(t))) for x in inner])
                if c.decide(cond):
                    rest = rest + h(t if isinstance(t, SInt) else t)
    return is_zero(rest, depth + 1)


def localised(f):
    """no forks allowed inside: a condition left open makes the region undecided"""
    c = core.ctx()
    saved = c.local, c.localfacts
    c.local = "nofork"
    try:
        return f()
    except Unsupported:
        return "no", None
    finally:
        c.local, c.localfacts = saved


def linear_part(e):
    """normal form of an expression with sum atoms: multiply out, keeping sums linear"""
    e = nf(e)
    p = poly(e)
    if p == 0:
        return p
    n, d = sp.fraction(sp.together(e))
    if not any(s in tab("sums") for s in d.free_symbols):
        return poly(n)
    return p


def refine_zero(e):
    """use facts of the path (equal indices) to show that e = 0"""
    c = core.ctx()
    pts = candidates()
    subs = {}
    for x, y in itertools.combinations(pts, 2):
        sx, syy = sy(x), sy(y)
        v = sx if sx.is_Symbol and sx in e.free_symbols else syy if syy.is_Symbol and syy in e.free_symbols else None
        o = syy if v is sx else sx
        if v is None or v in subs or (o.free_symbols & set(subs)) or v in o.free_symbols:
            continue
        if c.valid(iz(x) == iz(y)):
            subs[v] = o
    zr = tab("zreal")
    rs = sorted((x for x in e.free_symbols if x in zr), key=lambda x: x.name)
    for x, y in itertools.combinations(rs[:8], 2):
        if x not in subs and y not in subs and c.valid(zr[x] == zr[y]):
            subs[x] = y
    if subs:
        e2 = e.subs(subs)
        e2 = e2.subs({sign(v): minus_one_pow(o) for v, o in subs.items() if v.is_integer})
        try:
            return numer(e2) == 0
        except (ValueError, TypeError):
            return False
    return False


# ---------------------------------------------------------------- numerical instances
class Instance:
    """values of every symbol satisfying the path condition"""

    def __init__(self, c, seed):
        self.c = c
        self.rng = random.Random(seed)
        self.seed = seed
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add(c.solver.assertions())
        self.val = {}
        self.sub = [(z3.Real("pi!"), z3.RealVal("3141592653589793/1000000000000000"))]
        zi, zr = tab("zint"), tab("zreal")
        for sym in sorted(zi, key=lambda x: x.name):
            if sym.name == BV or sym.name.startswith("s!"):
                continue
            self._pick(s, sym, zi[sym], [z3.IntVal(self.rng.randint(*r)) for r in ((3, 7), (2, 9), (0, 4), (0, 8), (-3, 3), (0, 12))], True)
        for sym in sorted(zr, key=lambda x: x.name):
            cs = [z3.RealVal(f"{self.rng.randint(*r)}/7") for r in ((2, 16), (-12, 12), (5, 40), (-40, 40))]
            self._pick(s, sym, zr[sym], cs, False)
        if s.check() != z3.sat:
            raise Unsupported("no concrete instance")
        self.cache = {}

    def _pick(self, s, sym, z, cs, isint):
        for v in cs:
            s.push()
            s.add(z == v)
            if s.check() == z3.sat:
                break
            s.pop()
        else:
            if s.check() != z3.sat:
                raise Unsupported("no concrete instance")
            v = s.model().eval(z, model_completion=True)
            if not (z3.is_int_value(v) or z3.is_rational_value(v)):
                v = v.approx(10) if hasattr(v, "approx") else v
            s.add(z == v)
        self.sub.append((z, v))
        self.val[sym] = v.as_long() if isint else float(v.as_fraction())

    def truth(self, e):
        e = z3.simplify(z3.substitute(e, *self.sub))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        raise Unsupported("condition not determined by the instance")

    def int(self, x):
        if isinstance(x, int):
            return x
        v = z3.simplify(z3.substitute(iz(x), *self.sub))
        if not z3.is_int_value(v):
            raise Unsupported("index not determined by the instance")
        return v.as_long()

    def run(self, f):
        """evaluate a closure with decisions taken by the instance"""
        c = self.c
        saved = c.local, c.localfacts
        memo = dict(tab("sy"))
        c.local = self
        try:
            return f()
        finally:
            c.local, c.localfacts = saved
            c.data["sy"] = memo

    def ev(self, e, env=None):
        env = env or {}
        if e.is_Integer:
            return int(e)
        if e.is_Rational:
            return e.p / e.q
        if e is I:
            return 1j
        if e.is_Symbol:
            if e in env:
                return env[e]
            if e in self.val:
                return self.val[e]
            if e in tab("sums"):
                if e not in self.cache:
                    f, lo, hi = tab("sums")[e]
                    lo, hi = self.int(lo), self.int(hi)
                    self.cache[e] = sum(self.ev(self.run(lambda: f(j))) for j in range(lo, hi)) if hi > lo else 0
                return self.cache[e]
            if is_sign(e):
                s = sp.Symbol(e.name[3:-1], integer=True, **tab("range").get(e.name[3:-1], {}))
                return (-1.0) ** self.ev(s, env)
            raise Unsupported(f"value of {e}")
        if e.is_NumberSymbol or e.is_Number:
            return float(e)
        a = [self.ev(x, env) for x in e.args]
        if e.is_Add:
            return sum(a)
        if e.is_Mul:
            r = 1
            for x in a:
                r = r * x
            return r
        if e.is_Pow:
            if a[0] == 0 and not isinstance(a[1], complex) and a[1] < 0:
                raise Unsupported("division by zero in the instance")
            if isinstance(a[0], complex) and isinstance(a[1], (int, float)) and float(a[1]).is_integer():
                return a[0] ** int(a[1])
            if isinstance(a[0], float) and a[0] < 0 and not float(a[1].real).is_integer():
                return complex(a[0]) ** a[1]
            return a[0] ** a[1]
        f = e.func
        import cmath
        simple = {sp.exp: cmath.exp, sp.cos: cmath.cos, sp.sin: cmath.sin, sp.tan: cmath.tan, sp.cosh: cmath.cosh, sp.sinh: cmath.sinh,
                  sp.tanh: cmath.tanh, sp.sech: lambda z: 1 / cmath.cosh(z), sp.Abs: abs, sp.re: lambda z: complex(z).real,
                  sp.im: lambda z: complex(z).imag, sp.conjugate: lambda z: complex(z).conjugate()}
        if f in simple:
            return simple[f](a[0])
        name = f.__name__
        m = tab("meta").get(name)
        if m is None:
            raise Unsupported(f"value of {name}")
        key = (name,) + tuple(a)
        if key in self.cache:
            return self.cache[key]
        if m.kind == "opaque":
            r = random.Random(zlib.crc32(repr((self.seed, key)).encode()))
            v = r.randint(-5, 5) if m.k == "i" else r.uniform(-2, 2) if m.k == "f" else complex(r.uniform(-2, 2), r.uniform(-2, 2))
        elif m.kind == "special":
            v = spec_value(name, a)
        elif m.kind == "trunc":
            v = int(a[0].real)
        elif m.kind == "transform":
            v = self.transform(m, name)[self.whole(a[0])]
            for q in range(0):
                pass
        elif m.kind == "word":
            v = m.value(self)[tuple(self.whole(x) for x in a)]
        else:
            raise Unsupported(f"value of {name}")
        self.cache[key] = v
        return v

    def whole(self, x):
        if isinstance(x, complex):
            x = x.real
        if round(x) != x or x < 0:
            raise Unsupported("index in the instance")
        return int(round(x))

    def transform(self, m, name):
        import numpy as np
        if ("T", name) not in self.cache:
            n, ln = self.int(m.n), self.int(m.ln)
            if m.g is not None:
                b = intsym(BV)
                x = [self.ev(m.g, {b: k}) for k in range(ln)]
            else:
                x = [self.ev(self.run(lambda: m.f(k))) for k in range(ln)]
            x = np.array(x, dtype=complex)
            f = {"rfft": lambda: np.fft.rfft(x.real), "irfft": lambda: np.fft.irfft(x, n=n), "fft": lambda: np.fft.fft(x), "ifft": lambda: np.fft.ifft(x)}
            self.cache[("T", name)] = f[m.t]()
        return self.cache[("T", name)]


def spec_value(name, a):
    import scipy.special as ss
    if name == "J0":
        return ss.jv(0, a[0])
    if name == "J1":
        return ss.jv(1, a[0])
    if name.startswith("Z"):
        k = int(round(complex(a[0]).real))
        if k < 0:
            raise Unsupported("negative index of a Bessel zero")
        return ss.jn_zeros(int(name[1:]), k + 1)[k]
    raise Unsupported(f"value of {name}")


def scale(inst, e):
    """magnitude against which a difference is judged"""
    return max([1.0] + [abs(inst.ev(t)) for t in sp.Add.make_args(e)])


def exact_refute(e):
    """a model of the path in which a polynomial differs from 0 by more than rounding of its constants could explain"""
    c = core.ctx()
    ts = [to_z3(t) for t in sp.Add.make_args(sp.expand(e))]
    if any(t is None for t in ts):
        return None
    s = z3.Solver()
    s.set("timeout", 3000)
    s.add(c.solver.assertions())
    d, m = z3.Sum(ts), z3.Sum([z3.If(t < 0, -t, t) for t in ts])
    s.add(z3.Or(d > m * z3.Q(1, 10**12), -d > m * z3.Q(1, 10**12)))
    try:
        if s.check() != z3.sat:
            return None
    except z3.Z3Exception:
        return None
    return "for " + ", ".join(f"{x.name()}={s.model()[x]}" for x in s.model().decls()[:14]) + f": {e} differs from 0"


def refute(e, tries=4):
    """a concrete instance of the path on which e != 0, or None"""
    c = core.ctx()
    z = exact_refute(e)
    if z:
        return z
    for s in range(tries):
        try:
            inst = Instance(c, s)
            v = inst.ev(e)
            if abs(v) > 1e-7 * scale(inst, e):
                return "for " + ", ".join(f"{k.name}={v2:.6g}" for k, v2 in list(inst.val.items())[:14]) + f": difference {v:.6g}"
        except (Unsupported, ZeroDivisionError, OverflowError, ValueError, TypeError, KeyError, IndexError) as x:
            if core.DEBUGX:
                print("   no instance:", type(x).__name__, x)
            continue
    return None


def prove_zero(name, e, fn, detail=""):
    """obligation e = 0 on this path"""
    c = core.ctx()
    import time
    t = time.time()
    try:
        z = is_zero(e)
    except Unsupported as x:
        z, detail = None, f"{detail} {x}"
    if z:
        c.report.add(name, PROVED, fn, "exact normal form", time.time() - t)
        return True
    r = refute(e)
    if r is None:
        c.report.add(name, UNKNOWN, fn, "exact normal form", time.time() - t, f"{detail} not decided: {str(e)[:300]}")
    else:
        c.report.add(name, REFUTED, fn, "exact normal form", time.time() - t, f"{detail} {r}")
    return False
