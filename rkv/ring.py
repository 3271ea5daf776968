"""Exact normal forms for the scheme obligations.

El: elements of a ring of Laurent polynomials with rational coefficients in symbols (h, lam, R, M, mc, w, pi, I, ...)
times exponentials exp(polynomial), with inverses of polynomials. Exponentials with different exponents are
linearly independent over rational functions, so an element is zero iff its expanded numerator is empty:
equality is decided exactly.
"""
from fractions import Fraction as Fr
import z3
from . import core
from .core import Unsupported, mkbool


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for s, e in b:
        e2 = d.get(s, 0) + e
        if e2:
            d[s] = e2
        else:
            d.pop(s, None)
    return tuple(sorted(d.items()))


def mpow(a, k):
    return tuple((s, e * k) for s, e in a) if k else ()


def fixI(m):
    """reduce powers of I; returns (mono, sign)"""
    for i, (s, e) in enumerate(m):
        if s == "I":
            e %= 4
            rest = m[:i] + m[i + 1:]
            if e == 0:
                return rest, 1
            if e == 1:
                return tuple(sorted(rest + (("I", 1),))), 1
            if e == 2:
                return rest, -1
            return tuple(sorted(rest + (("I", 1),))), -1
    return m, 1


ONEKEY = ((), ())


def padd(p, q, f=1):
    r = dict(p)
    for k, v in q.items():
        if f != 1:
            v = f * v
        x = r.get(k)
        if x is None:
            r[k] = v
            continue
        x = x + v
        if x:
            r[k] = x
        else:
            r.pop(k, None)
    return r


def eadd(a, b):
    """sum of two exponents (canonical tuples of (mono, coeff))"""
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for m, c in b:
        x = d.get(m, 0) + c
        if x:
            d[m] = x
        else:
            d.pop(m, None)
    return tuple(sorted(d.items()))


PIM = tuple(sorted((("pi", 1), ("I", 1))))


def normexp(e):
    """exponent -> (exponent with its pi*I part reduced, mono factor, sign)"""
    d = dict(e)
    q = d.pop(PIM, None)
    if q is None:
        return e, (), 1
    q = q % 2
    mono, sg = (), 1
    if q == 1:
        q, sg = 0, -1
    elif q == Fr(1, 2):
        q, mono = 0, (("I", 1),)
    elif q == Fr(3, 2):
        q, mono, sg = 0, (("I", 1),), -1
    if q:
        d[PIM] = q
    return tuple(sorted(d.items())), mono, sg


_KM = {}


def kmul(a, b):
    """product of two keys -> (key, sign), memoised"""
    if a == ONEKEY:
        return b, 1
    if b == ONEKEY:
        return a, 1
    r = _KM.get((a, b))
    if r is None:
        if len(_KM) > 200000:
            _KM.clear()
        r = _KM[(a, b)] = kmul_(a, b)
    return r


def kmul_(a, b):
    """product of two keys -> (key, sign)"""
    m, s = fixI(mmul(a[0], b[0]))
    e, m2, s2 = normexp(eadd(a[1], b[1]))
    if m2:
        m, s3 = fixI(mmul(m, m2))
        s *= s3
    return (m, e), s * s2


def pmul(p, q):
    r = {}
    for k1, v1 in p.items():
        for k2, v2 in q.items():
            k, s = kmul(k1, k2)
            v = v2 if v1 == 1 else v1 if v2 == 1 else v1 * v2
            if s < 0:
                v = -v
            x = r.get(k)
            if x is None:
                r[k] = v
                continue
            x = x + v
            if x:
                r[k] = x
            else:
                r.pop(k, None)
    return r


REAL = set()       # names of symbols known to be real (comparisons go to z3)
POS = set()
_Z3 = {}


def z3sym(name):
    if name not in _Z3:
        _Z3[name] = z3.Real("s_" + name)
    return _Z3[name]


def num(x):
    """python/numpy-free number -> Fraction, None if not a number"""
    if isinstance(x, bool):
        return Fr(int(x))
    if isinstance(x, (int, Fr)):
        return Fr(x)
    if isinstance(x, float):
        return simplest(x)
    return None


def simplest(x):
    """the exact rational a floating-point literal stands for"""
    if x != x or x in (float("inf"), float("-inf")):
        raise Unsupported("non-finite number in a scheme")
    f = Fr(x)
    if f.denominator == 1:
        return f
    s = Fr(repr(x))
    digits = len(repr(x).split("e")[0].replace(".", "").replace("-", "").strip("0"))
    if digits <= 12:
        return s
    g = f.limit_denominator(10 ** 6)
    if abs(g - f) <= abs(f) * Fr(3, 10 ** 16):
        return g
    return s


class El:
    __slots__ = ("n", "d", "sing", "isint")

    def __init__(self, n=None, d=None, sing=None, isint=False):
        self.n = n if n is not None else {}
        self.d = d if d is not None else {}
        self.sing = sing
        self.isint = isint

    # ---- construction
    @staticmethod
    def of(x):
        if isinstance(x, El):
            return x
        if isinstance(x, complex):
            r = El.of(x.real) + El.of(x.imag) * sym("I")
            return r
        q = num(x)
        if q is None:
            return None
        return El({ONEKEY: q} if q else {})

    def _o(self, x):
        return El.of(x)

    # ---- arithmetic
    def __add__(self, o):
        o = El.of(o)
        if o is None:
            return NotImplemented
        sg = self.sing or o.sing
        if self.d == o.d:
            return El(padd(self.n, o.n), self.d, sg)
        d = dict(self.d)
        for f, p in o.d.items():
            d[f] = max(d.get(f, 0), p)
        a, b = self.n, o.n
        for f, p in d.items():
            for _ in range(p - self.d.get(f, 0)):
                a = pmul(a, dict(f))
            for _ in range(p - o.d.get(f, 0)):
                b = pmul(b, dict(f))
        return El(padd(a, b), d, sg)
    __radd__ = __add__

    def __neg__(self):
        return El({k: -v for k, v in self.n.items()}, self.d, self.sing)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = El.of(o)
        return NotImplemented if o is None else self + (-o)

    def __rsub__(self, o):
        o = El.of(o)
        return NotImplemented if o is None else o + (-self)

    def __mul__(self, o):
        o = El.of(o)
        if o is None:
            return NotImplemented
        d = dict(self.d)
        for f, p in o.d.items():
            d[f] = d.get(f, 0) + p
        n = pmul(self.n, o.n)
        return El(n, d if n else {}, self.sing or o.sing)
    __rmul__ = __mul__

    def inv(self):
        if not self.n:
            raise ZeroDivisionError("division by zero")
        r = El({ONEKEY: Fr(1)}, None, self.sing)
        for f, p in self.d.items():
            for _ in range(p):
                r = El(pmul(r.n, dict(f)), r.d, r.sing)
        if len(self.n) == 1:
            (k, v), = self.n.items()
            ik = (mpow(k[0], -1), tuple((m, -c) for m, c in k[1]))
            k2, s = kmul_(ik, ONEKEY)
            return r * El({k2: s / v}, None, None)
        pp = perfect_power(self)
        if pp is not None:
            a, b, k = pp
            return r * El({ONEKEY: Fr(1)}) * a.inv() * b.inv() ** k
        lead = min(self.n, key=lambda q: (dict(q[0]).get(W, 0), q))
        v = self.n[lead]
        il = (mpow(lead[0], -1), tuple((m, -c) for m, c in lead[1]))
        ilk, s = kmul_(il, ONEKEY)
        q = pmul(self.n, {ilk: s / v})
        form = tuple(sorted(q.items()))
        return El(pmul(r.n, {ilk: s / v}), {form: 1}, r.sing)

    def __truediv__(self, o):
        o = El.of(o)
        return NotImplemented if o is None else self * o.inv()

    def __rtruediv__(self, o):
        o = El.of(o)
        return NotImplemented if o is None else o * self.inv()

    def __pow__(self, k):
        q = num(k) if not isinstance(k, El) else k.const()
        if q is None or q.denominator != 1 or abs(q) > 12:
            raise Unsupported("power with a symbolic or fractional exponent")
        k = int(q)
        b = self if k >= 0 else self.inv()
        r = El({ONEKEY: Fr(1)}, None, None)
        for _ in range(abs(k)):
            r = r * b
        return r

    def __rpow__(self, o):
        raise Unsupported("power with a symbolic exponent")

    def __abs__(self):
        c = self.const()
        if c is not None:
            return El.of(abs(c))
        if self.is_real():
            return absreal(self)
        return abssym(self)

    # ---- properties
    def is_zero(self):
        return not self.n

    def same(self, o):
        o = El.of(o)
        if o is None:
            return False
        if self.d == o.d:
            return self.n == o.n
        return (self - o).is_zero()

    def const(self):
        if not self.n:
            return Fr(0)
        if self.d or len(self.n) != 1:
            return None
        (k, v), = self.n.items()
        return v if k == ONEKEY else None

    def syms(self):
        out = set()

        def key(k):
            for s, _ in k[0]:
                out.add(s)
            for m, _ in k[1]:
                for s, _ in m:
                    out.add(s)
        for k in self.n:
            key(k)
        for f in self.d:
            for k, _ in f:
                key(k)
        return out

    def is_real(self):
        return all(s in REAL for s in self.syms()) and not any(k[1] for k in self.n)

    def key(self):
        return (tuple(sorted(self.n.items())), tuple(sorted(self.d.items())))

    # ---- comparisons (real scalars)
    def z3(self):
        if any(k[1] for k in self.n):
            raise Unsupported("comparison of an exponential expression")

        def poly(items):
            r = z3.RealVal(0)
            for (m, e), v in items:
                if e:
                    raise Unsupported("comparison of an exponential expression")
                t = z3.RealVal(f"{v.numerator}/{v.denominator}")
                for s, p in m:
                    if s not in REAL:
                        raise Unsupported(f"comparison of a non-real value ({s})")
                    for _ in range(abs(p)):
                        t = t * z3sym(s) if p > 0 else t / z3sym(s)
                r = r + t
            return r
        r = poly(self.n.items())
        for f, p in self.d.items():
            for _ in range(p):
                r = r / poly(f)
        return r

    def _cmp(self, o, f):
        o = El.of(o)
        if o is None:
            return NotImplemented
        x = self - o
        c = x.const()
        if c is not None:
            return bool(f(c, 0))
        return mkbool(z3.simplify(f(x.z3(), z3.RealVal(0))))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        x = El.of(o)
        if x is None:
            return False
        d = self - x
        c = d.const()
        if c is not None:
            return c == 0
        # generic position: different normal forms are different numbers
        if core.ctx() is not None and d.is_real():
            core.ctx().assume(d.z3() != 0)
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        c = self.const()
        return hash(c) if c is not None else 77

    def __bool__(self):
        return not (self == 0)

    def _rkv_isinstance(self, c):
        import builtins
        if c in (builtins.float, builtins.complex) or getattr(c, "_rkv_type", None) in (float, complex):
            return not self.isint
        if c is builtins.int or getattr(c, "_rkv_type", None) is int:
            return self.isint
        return getattr(c, "__name__", "") in (("Number", "Real", "Integral", "Rational") if self.isint else ("Number", "Real"))

    def _rkv_float(self):
        return El(self.n, self.d, self.sing)

    def _rkv_int(self):
        if self.isint:
            return self
        raise Unsupported("int() of a symbolic number")

    def item(self): return self
    @property
    def real(self):
        if self.is_real():
            return self
        raise Unsupported("real part of a complex value")

    @property
    def imag(self):
        if self.is_real():
            return El()
        raise Unsupported("imaginary part of a complex value")

    def conjugate(self):
        if self.is_real():
            return self
        raise Unsupported("conjugate of a complex value")
    shape = ()
    ndim = 0
    size = 1

    def __format__(self, s): return "<num>"

    def __repr__(self):
        def mono(m):
            return "*".join(s if e == 1 else f"{s}^{e}" for s, e in m)

        def key(k):
            t = [mono(k[0])] if k[0] else []
            if k[1]:
                t.append("exp(" + " + ".join((f"{c}*" if c != 1 else "") + (mono(m) or "1") for m, c in k[1]) + ")")
            return "*".join(t)
        s = " + ".join((f"{v}*" if v != 1 else "") + (key(k) or "1") for k, v in sorted(self.n.items())) or "0"
        for f, p in self.d.items():
            s = f"({s})/({El(dict(f))!r})^{p}"
        return s


def perfect_power(x):
    """x = a * b**k with b linear in the contour variable and k > 1, or None"""
    by = {}
    for (m, e), v in x.n.items():
        p = dict(m).get(W, 0)
        if any(dict(em).get(W, 0) for em, _ in e):
            return None
        by.setdefault(p, {})[(tuple((s, q) for s, q in m if s != W), e)] = v
    lo, hi = min(by), max(by)
    k = hi - lo
    if k < 2 or len(by[hi]) != 1:
        return None
    a = El(by[hi])
    root = -(El(by.get(hi - 1, {})) * a.inv() * El.of(Fr(1, k)))
    b = sym(W) - root
    t = b ** k * a * sym(W) ** lo
    if (t - El(x.n)).is_zero():
        return a * sym(W) ** lo, b, k
    return None


def sym(name, real=False, positive=False, isint=False):
    if real or positive:
        REAL.add(name)
    if positive:
        POS.add(name)
    return El({(((name, 1),), ()): Fr(1)}, None, None, isint)


REAL.add("pi")
POS.add("pi")

_ABS = []          # (El, symbol name)


def abssym(x):
    """|x| of a complex value: a real symbol per normal form (up to a positive rational factor)"""
    lead = x.n[min(x.n)]
    f = abs(lead)
    y = x * El.of(1 / f)
    for z, name in _ABS:
        if z.same(y) or z.same(-y):
            return sym(name, True) * El.of(f)
    name = f"abs{len(_ABS)}"
    REAL.add(name)
    _ABS.append((y, name))
    return sym(name, True) * El.of(f)


def absbase(name):
    for z, n in _ABS:
        if n == name:
            return z
    return None


def absreal(x):
    if all(s in POS for s in x.syms()) and len(x.n) == 1 and not x.d:
        (k, v), = x.n.items()
        return El({k: abs(v)})
    if core.ctx() is None:
        raise Unsupported("absolute value outside of a path")
    return x if core.ctx().decide(x.z3() >= 0) else -x


W = "W"


def exp(x):
    x = El.of(x)
    c = x.const()
    if c is not None and c == 0:
        return El({ONEKEY: Fr(1)}, None, x.sing)
    if x.d:
        raise Unsupported("exponential of a rational expression")
    ex = []
    for k, v in x.n.items():
        if k[1]:
            raise Unsupported("exponential of an exponential")
        ex.append((k[0], v))
    d = dict(ex)
    jm = [m for m in d if any(s == "j" for s, _ in m)]
    mono = ()
    if jm:
        # exp(c0 + (2 pi I / M) j): a node of the uniform contour
        if len(jm) != 1 or jm[0] != tuple(sorted((("pi", 1), ("I", 1), ("M", -1), ("j", 1)))) or abs(d[jm[0]]) != 2:
            raise Unsupported("contour nodes that are not M equally spaced points")
        d.pop(jm[0])
        off = tuple(sorted((("pi", 1), ("I", 1), ("M", -1))))
        d.pop(off, None)         # a rotation of the contour does not matter
        mono = ((W, 1),)
    e, m2, s = normexp(tuple(sorted(d.items())))
    m, s2 = fixI(mmul(mono, m2))
    return El({(m, e): Fr(s * s2)}, None, x.sing)


# ---------------------------------------------------------------- calculus in one symbol
def diff(x, s):
    """d x / d s"""
    def dpoly(p):
        r = {}
        for (m, e), v in p.items():
            for i, (t, k) in enumerate(m):
                if t == s:
                    m2 = mmul(m, ((s, -1),))
                    r = padd(r, {(m2, e): v * k})
            for (em, c) in e:
                for (t, k) in em:
                    if t == s:
                        dm = mmul(em, ((s, -1),))
                        kk, sg = kmul((dm, ()), (m, e))
                        r = padd(r, {kk: v * c * k * sg})
        return r
    out = El(dpoly(x.n), dict(x.d), x.sing)
    for f, p in x.d.items():
        df = dpoly(dict(f))
        if df:
            d2 = dict(x.d)
            d2[f] = p + 1
            out = out + El(pmul(pmul(x.n, df), {ONEKEY: Fr(-p)}), d2, x.sing)
    return out


def subst(x, s, val):
    """x with symbol s replaced by the element val (val a monomial where s occurs with a negative power or in an exponent)"""
    def spoly(p):
        r = El()
        for (m, e), v in p.items():
            k = dict(m).get(s, 0)
            rest = tuple((a, b) for a, b in m if a != s)
            ex = {}
            extra = El({ONEKEY: Fr(0)}) if False else El()
            for (em, c) in e:
                ke = dict(em).get(s, 0)
                if not ke:
                    ex[em] = ex.get(em, 0) + c
                else:
                    erest = tuple((a, b) for a, b in em if a != s)
                    extra = extra + El({(erest, ()): c}) * val ** ke
            t = El({(rest, tuple(sorted(ex.items()))): v})
            if k:
                t = t * val ** k
            if not extra.is_zero():
                t = t * exp(extra)
            r = r + t
        return r
    num_ = spoly(x.n)
    for f, p in x.d.items():
        g = spoly(dict(f))
        num_ = num_ / g ** p
    num_.sing = x.sing
    return num_


def residue(x, s, pole, order):
    """residue of x at s = pole, a pole of order at most `order`"""
    y = x * (sym(s) - pole) ** order
    y = cancel(y, s)
    for k in range(1, order):
        y = diff(y, s)
        y = y * El.of(Fr(1, k))
        y = cancel(y, s)
    return subst(y, s, pole)


def cancel(x, s):
    """cancel common factors (linear forms in s) between numerator and denominator"""
    n, d = x.n, dict(x.d)
    for f in list(d):
        while d.get(f):
            q = divide(n, f, s)
            if q is None:
                break
            n = q
            d[f] -= 1
            if not d[f]:
                del d[f]
    return El(n, d, x.sing)


def divide(n, f, s):
    """exact quotient of the polynomial n by the form f (linear in s with monomial coefficients), or None"""
    fd = dict(f)
    lead = [k for k in fd if dict(k[0]).get(s, 0) == 1 and not k[1]]
    rest = {k: v for k, v in fd.items() if k not in lead}
    if len(lead) != 1 or any(dict(k[0]).get(s, 0) for k in rest) or any(k[1] for k in rest):
        return None
    lk = lead[0]
    ilk = (mpow(lk[0], -1), ())
    # group by exponent; long division in s (Laurent: shift so that powers are >= 0)
    rem = dict(n)
    quo = {}
    # lowest power of s per exponential, so that the division stays finite
    lo = {}
    for (m, e) in rem:
        p = dict(m).get(s, 0)
        lo[e] = min(lo.get(e, p), p)
    guard = 0
    while rem:
        guard += 1
        if guard > 400:
            return None
        k = max(rem, key=lambda q: (dict(q[0]).get(s, 0), q))
        p = dict(k[0]).get(s, 0)
        if p - 1 < lo[k[1]]:
            return None
        qk, sg = kmul(k, ilk)
        c = rem[k] * sg / fd[lk]
        quo = padd(quo, {qk: c})
        rem = padd(rem, pmul({qk: c}, fd), -1)
    return quo


def linear_root(f, s):
    """root in s of a form linear in s, None if it does not contain s; Unsupported otherwise"""
    a, b = {}, {}
    for (m, e), v in f:
        k = dict(m).get(s, 0)
        if any(dict(em).get(s, 0) for em, _ in e):
            raise Unsupported("denominator with an exponential in the contour variable")
        if k == 0:
            b[(m, e)] = v
        elif k == 1:
            a[(tuple((x, y) for x, y in m if x != s), e)] = v
        else:
            raise Unsupported("denominator not linear in the contour variable")
    if not a:
        return None
    return -(El(b) / El(a))


def contour_mean(x, inside):
    """mean of x(W) over M equally spaced nodes of the unit circle (exact up to quadrature error):
    sum of the residues of x/W inside |W| < 1. inside(pole) -> True/False/None (unknown)"""
    if W not in x.syms():
        return x
    y = El(x.n, dict(x.d), x.sing) * (sym(W) ** -1)
    # essential: exponentials exp(c*W^k) with k > 0 only (entire)
    low = 0
    for (m, e) in y.n:
        low = min(low, dict(m).get(W, 0))
        for em, _ in e:
            if dict(em).get(W, 0) < 0:
                raise Unsupported("essential singularity in a contour mean")
    y = cancel(y, W)
    tot = El()
    poles = []
    for f, p in y.d.items():
        r = linear_root(f, W)
        if r is not None:
            for q in poles:
                if q[0].same(r):
                    q[1] += p
                    break
            else:
                poles.append([r, p])
    if low < 0:
        for q in poles:
            if q[0].is_zero():
                q[1] += -low
                break
        else:
            poles.append([El(), -low])
    for r, p in poles:
        res = residue(y, W, r, p)
        if res.is_zero():
            continue
        if r.is_zero():
            tot = tot + res
            continue
        i = inside(r)
        if i is None:
            raise Unsupported("a contour mean whose value depends on where the contour lies")
        if i:
            tot = tot + res
    tot = reduce_(tot)
    tot.sing = x.sing
    return tot


def reduce_(x):
    for s in sorted(x.syms()):
        if x.d:
            x = cancel(x, s)
    return x


# ---------------------------------------------------------------- power series in h (lam^b h^a)
def series(x, order, hs="h", ls="lam"):
    """{(a, b): Fraction-or-(re,im)} coefficients of h^a lam^b for a <= order; x Laurent/exponential in h, lam only"""
    if x.d:
        raise Unsupported("power series of a rational expression")
    out = {}

    def add(a, b, c, im):
        z = out.get((a, b), (Fr(0), Fr(0)))
        z = (z[0] + (0 if im else c), z[1] + (c if im else 0))
        if z == (0, 0):
            out.pop((a, b), None)
        else:
            out[(a, b)] = z
    for (m, e), v in x.n.items():
        a = b = im = 0
        for s, k in m:
            if s == hs:
                a = k
            elif s == ls:
                b = k
            elif s == "I" and k == 1:
                im = 1
            else:
                raise Unsupported(f"power series with the symbol {s}")
        q = Fr(0)
        for em, c in e:
            if em != tuple(sorted(((hs, 1), (ls, 1)))):
                raise Unsupported(f"power series of exp of {em}")
            q = c
        t = Fr(1)
        k = 0
        while a + k <= order:
            add(a + k, b + k, v * t, im)
            if not q:
                break
            k += 1
            t = t * q / k
    return out
