"""Contracts of grids, spectral derivatives, the Hankel transform, model operators and solitons (C17..C23).

The real functions run on arrays of symbolic length (every length, both parities) with opaque elements and on symbolic
real parameters; every obligation is an equality of exact expressions at a generic index (sym.py), or a fact of
linear integer arithmetic about shapes and refusals (z3).
"""
import functools
import itertools
import numbers
import types
import sympy as sp
import z3
from . import core, lemma, parallel, sym, sarr
from .core import Unsupported, SInt, SBool, mkint, Report
from .extract import World
from .runtime import Runtime, Shim, Missing, logging_shim, typelike
from .sym import Sc, sy, scalar, tab, new_int, new_real, opaque, prove_zero, iz
from .sarr import A, NDArray

G = "rkstiff.grids."
D = "rkstiff.derivatives."
H = "rkstiff.transforms.HankelTransform"
M = "rkstiff.models."


class NPInt: pass


class SpectralRuntime(Runtime):
    def lit(self, text):
        if text.endswith("j"):
            return Sc(sp.I * sp.Rational(text[:-1]), "c")
        return Sc(sp.Rational(text), "f")

    def isinstance_(self, x, c):
        if isinstance(c, types.UnionType):
            c = c.__args__
        cs = c if isinstance(c, tuple) else (c,)
        if isinstance(x, (Sc, SInt)):
            return any(self.isinst1(x, k) for k in cs)
        return super().isinstance_(x, c)

    def isinst1(self, x, k):
        if isinstance(k, (tuple, types.UnionType)):
            return self.isinstance_(x, k)
        if isinstance(k, Missing):
            raise Unsupported("isinstance against a type without a contract model")
        t = getattr(k, "_rkv_type", k)
        num = (object, numbers.Number, numbers.Complex)
        if isinstance(x, SInt):
            return t in num + (int, numbers.Real, numbers.Rational, numbers.Integral)
        if t in (sarr.NPF, sarr.NPC, sarr.NPI, sarr.NPIn, sarr.NPN) or t is sarr.NDArray:
            if t is sarr.NDArray:
                return False
            raise Unsupported("isinstance of a number against a numpy scalar type")
        if x.k == "i":
            raise Unsupported("type of an integer array element")
        return t in num + ((float, numbers.Real) if x.k == "f" else (complex,))

    def div(self, a, b):
        if isinstance(a, str) or isinstance(b, str):
            return super().div(a, b)
        if isinstance(a, (int, float, complex, SInt)):
            a = scalar(a)
        if isinstance(b, (int, float, complex, SInt)):
            b = scalar(b)
        return a / b

    def idiv(self, a, b):
        if isinstance(b, (int, float, complex, SInt)):
            b = scalar(b)
        f = getattr(type(a), "__itruediv__", None)
        if f is not None:
            return f(a, b)
        return self.div(a, b)

    def pow(self, a, b):
        if isinstance(a, int) and isinstance(b, int) and b >= 0:
            return a ** b
        if isinstance(a, SInt) and isinstance(b, int) and 0 <= b <= 4:
            return a ** b
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
            r = sym.scpow(scalar(a), scalar(b))
            return sym.to_int(r.e) if r.k == "i" and r.e.is_Integer else r
        if isinstance(a, (int, float, complex, SInt)):
            a = scalar(a)
        return a ** b

    def matmul(self, a, b):
        return sarr.matmul(a, b)

    def float_(self, *a):
        if a and isinstance(a[0], (SInt, int)):
            return Sc(scalar(a[0]).e, "f")
        if a and isinstance(a[0], str):
            raise Unsupported("float of a string")
        return super().float_(*a)

    def complex_(self, *a):
        xs = [scalar(x) for x in a]
        return Sc(xs[0].e + (sp.I * xs[1].e if len(xs) > 1 else 0), "c")

    def type_(self, *a):
        if len(a) == 1:
            if isinstance(a[0], (Sc, SInt, A)):
                raise Unsupported("type of a symbolic value")
            return type(a[0])
        return type(*a)

    def sum_(self, x, start=0):
        if isinstance(x, A):
            return sarr.npsum(x, 0)
        return sum(x, start)

    def builtins(self):
        b = super().builtins()
        b["type"] = typelike(type, self.type_)
        b["sum"] = self.sum_
        b["bool"] = typelike(bool, lambda x=False: bool(x))
        return b


def world():
    c = core.ctx()
    c.data["nonlinear"] = True
    np = sarr.numpy_shim()
    spec = sarr.special_shim()
    fft = np.fft
    import operator

    def index(x):
        if isinstance(x, SInt):
            return x
        if isinstance(x, Sc) and x.k != "i":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return operator.index(x)
    m1 = {n: (lambda x, f=sarr.UF[n]: f(scalar(x))) for n in ("exp", "cos", "sin", "tan", "cosh", "sinh", "tanh", "sqrt")}
    math = Shim("math", isclose=sarr.mathclose, fabs=lambda x: abs(scalar(x)), pi=Sc(sp.pi), isnan=lambda x: scalar(x).e is sp.nan, isfinite=lambda x: scalar(x).e is not sp.nan, isinf=lambda x: False, **m1)
    sh = {"numpy": np, "numpy.fft": fft, "numpy.linalg": np.linalg, "numpy.polynomial": np.polynomial, "numpy.polynomial.chebyshev": np.polynomial.chebyshev,
          "scipy": Shim("scipy", special=spec, fft=fft), "scipy.special": spec, "scipy.fft": fft, "scipy.linalg": Missing("scipy.linalg"),
          "logging": logging_shim(), "math": math, "sys": Missing("sys"), "os": Missing("os"),
          "operator": Shim("operator", **{**{k: v for k, v in vars(operator).items() if not k.startswith("_")}, "index": index})}
    return World(sh, SpectralRuntime())


# ---------------------------------------------------------------- helpers of the specifications
def fn_of(w, mod, name):
    try:
        return getattr(w.load(mod), name)
    except AttributeError:
        raise Unsupported(f"{mod}.{name} does not exist") from None


def arr(name, shape, k="f"):
    """caller's array with opaque elements"""
    n = f"{name}${core.ctx().nsym}"
    core.ctx().nsym += 1
    f = opaque(n, k)
    a = A(shape, lambda ix: Sc(f(*[sy(i) for i in ix]), k), k)
    a.buf.owner = n
    a.f = f
    a.orig = a.buf.fn
    return a


def mat(name, shape, k="f"):
    n = f"{name}{core.ctx().nsym}"
    core.ctx().nsym += 1
    a = sarr.matrix(n, shape, k)
    a.orig = a.buf.fn
    a.name = n
    return a


def generic(shape, name="i"):
    """a generic index of an array"""
    c = core.ctx()
    ix = []
    pts = c.data.setdefault("points", [])
    for d in shape:
        if isinstance(d, int) and d <= 8:
            for v in range(d - 1):
                if c.free((name, len(ix), c.nsym, v)):
                    ix.append(v)
                    break
            else:
                if d == 0:
                    raise core.Infeasible()
                ix.append(d - 1)
            continue
        i = new_int(name, 0)
        c.assume(i.e < iz(d))
        if c.solver.check() == z3.unsat:
            raise core.Infeasible()
        ix.append(i)
        pts += [i, 0, d - 1]
    return tuple(ix)


def prove_shape(c, name, got, shape, fn):
    if isinstance(got, (list, tuple)):
        raise Unsupported("result is a sequence, not an array")
    if not isinstance(got, A):
        if isinstance(got, Missing):
            raise Unsupported("result without a model")
        return c.prove(f"{name}: an array of the right shape", False, fn, f"got {got!r}")
    if got.ndim != len(shape):
        return c.prove(f"{name}: an array of the right shape", False, fn, f"got {got.ndim} dimensions")
    return c.prove(f"{name}: an array of the right shape", z3.And([iz(a) == iz(b) for a, b in zip(got.shape_, shape)] + [True]), fn,
                   f"got {got.shape_} instead of {shape};")


def prove_array(c, name, got, shape, spec, fn):
    """got has the given shape and the elements spec(*index)"""
    if not prove_shape(c, name, got, shape, fn):
        return
    ix = generic(shape)
    prove_zero(f"{name}: elements", got.at(*ix).e - spec(*ix), fn, f"element {tuple(ix)}")


def unchanged(c, name, a, fn):
    """the caller's array still has its elements"""
    if a.buf.fn is a.orig:
        c.prove(f"{name} is not modified", True, fn)
        return
    ix = generic(a.buf.shape)
    prove_zero(f"{name} is not modified", a.buf.fn(ix).e - a.orig(ix).e, fn)


def call(f, *a, **k):
    """('ok', result) or ('raised', exception of the code)"""
    try:
        return "ok", f(*a, **k)
    except (core.Control, Unsupported):
        raise
    except Exception as x:  # noqa: BLE001
        core.genuine(x)
        return "raised", x


def refuses(c, name, f, kinds, fn, *a, **k):
    s, r = call(f, *a, **k)
    c.prove(name, s == "raised" and isinstance(r, kinds), fn, "accepted" if s == "ok" else f"raised {type(r).__name__}: {r}")


def returns(c, name, fn, f, *a, **k):
    s, r = call(f, *a, **k)
    if s == "raised":
        c.prove(f"{name}: accepted", False, fn, f"raised {type(r).__name__}: {r};" + c_model(c))
        raise core.PathEnd()
    return r


def c_model(c):
    if c.solver.check() == z3.sat:
        m = c.solver.model()
        return " for " + ", ".join(f"{x}={core.short(m[x])}" for x in list(m)[:12])
    return ""


def job(f, *a, what=None, fallback=None, **kw):
    rep = Report()
    try:
        core.explore(lambda c: f(c, *a), rep, **kw)
    except Unsupported as e:
        if fallback is not None:
            rep2 = fallback(str(e))
            if rep2 is not None:
                rep2.bounded.append(f"{what}: {e}; decided for the listed instances only")
                rep2.merge(Report())
                for r in rep.refuted():
                    rep2.obl[r] = rep.obl[r]
                return rep2
        rep.unsupported.append((what or f.__name__, str(e)))
    return rep


BADINT = [("a float", lambda: Sc(8, "f")), ("a real number", lambda: new_real("x")), ("a string", lambda: "8"), ("None", lambda: None)]


# ---------------------------------------------------------------- C17
def c17(c, which, parity, args):
    w = world()
    name = f"construct_x_kx_{which}"
    fn = G + name
    f = fn_of(w, "rkstiff.grids", name)
    m = new_int("m")
    n = m * 2 + parity
    if args == "default":
        a, b = sp.Integer(0), 2 * sp.pi
        av = ()
    elif args == "int":
        x, y = new_int("a"), new_int("b")
        c.assume(x.e < y.e)
        av, a, b = (x, y), sy(x), sy(y)
    else:
        x, y = new_real("a"), new_real("b")
        c.assume(sym.to_z3(x.e) < sym.to_z3(y.e))
        av, a, b = (x, y), x.e, y.e
    s, r = call(f, n, *av) if args != "keyword" else call(f, n=n, a=av[0], b=av[1])
    good = n.e > 2 if parity == 0 else False
    if s == "raised":
        c.prove(f"{name}: every even n > 2 is accepted", z3.Not(good) if parity == 0 else True, fn, f"raised {type(r).__name__}: {r};")
        c.prove(f"{name}: refusal is a TypeError or ValueError", isinstance(r, (TypeError, ValueError)), fn, f"{type(r).__name__}: {r}")
        return
    c.prove(f"{name}: any other n is refused", good, fn)
    if parity or not c.valid(good):
        return
    if not (isinstance(r, tuple) and len(r) == 2):
        c.prove(f"{name}: returns (x, kx)", False, fn)
        return
    x, kx = r
    N = sy(n)
    prove_array(c, f"{name}: grid points", x, (n,), lambda j: a + sy(j) * (b - a) / N, fn)
    nk = m + 1 if which == "rfft" else n

    def wave(j):
        k = sy(j)
        if which == "fft" and not sarr.cmp(j, "<", m):
            k = k - N
        return 2 * sp.pi * k / (b - a)
    prove_array(c, f"{name}: wavenumbers", kx, (nk,), wave, fn)


def c17bad(c, which):
    w = world()
    name = f"construct_x_kx_{which}"
    f = fn_of(w, "rkstiff.grids", name)
    for what, v in BADINT:
        refuses(c, f"{name}: {what} is refused", f, (TypeError, ValueError), G + name, v())


# ---------------------------------------------------------------- C18
def order_values(tag):
    return {"sym": None}.get(tag, tag)


def wavenumbers(c, which, N, nk, kk):
    """the wavenumbers of a uniform grid of N points: multiples of the fundamental one, in the order of the transform"""
    if kk == "i":
        ka = new_int("kappa", 1)
    else:
        ka = new_real("kappa", positive=True)
    ka = scalar(ka).e
    wrap = which == "fft"

    def f(i):
        if wrap and not sarr.cmp(sarr.to_int(sp.expand(2 * i)), "<", N):
            return ka * (i - sy(N))
        return ka * i
    a = A((nk,), lambda ix: Sc(f(sy(ix[0])), kk), kk)
    a.buf.owner = "kx"
    a.f = f
    a.orig = a.buf.fn
    return a


def c18(c, which, parity, order, uk="f", kk="f"):
    w = world()
    name = f"dx_{which}"
    fn = D + name
    f = fn_of(w, "rkstiff.derivatives", name)
    m = new_int("m", 0)
    N = m * 2 + parity
    nk = N // 2 + 1 if which == "rfft" else N
    u = arr("u", (N,), uk)
    K = wavenumbers(c, which, N, nk, kk)
    if order == "symbolic":
        n = new_int("n", 1)
        av = (n,)
    elif order == "default":
        n, av = 1, ()
    else:
        n, av = order, (order,)
    if which == "fft":
        c.assume(N.e >= 1)
    r = returns(c, f"{name} of {uk} data", fn, f, K, u, *av)
    unchanged(c, f"{name}: the input", u, fn)
    unchanged(c, f"{name}: the wavenumber array", K, fn)
    what = f"{name} of {uk} data"
    if order == 0:
        prove_array(c, f"{what}, n = 0", r, (N,), lambda j: u.f(sy(j)), fn)
        return
    if not prove_shape(c, what, r, (N,), fn):
        return
    if not c.decide(N.e >= 1):
        return
    t, it = ("rfft", "irfft") if which == "rfft" else ("fft", "ifft")
    U = sarr.transform(t, arr_copy(u))
    ns = sy(n)

    def want(k):
        return sym.nf((sp.I * K.f(sy(k))) ** ns) * U.at(k).e
    S = sarr.Lin(it, lambda q: Sc(want(q), "c"), nk, N)
    j, = generic((N,), "j")
    d = r.at(j).e - S.at(j)
    if sym.is_zero(d):
        c.report.add(f"{what}: mode k is multiplied by (i k)^n", core.PROVED, fn, "exact normal form")
        return
    ok = coefficients(c, r.at(j).e, it, sy(j), want, nk, N, parity, n, U)
    if ok:
        c.report.add(f"{what}: mode k is multiplied by (i k)^n", core.PROVED, fn, "exact normal form")
        return
    z = sym.refute(d)
    c.report.add(f"{what}: mode k is multiplied by (i k)^n", core.UNKNOWN if z is None else core.REFUTED, fn, "exact normal form", 0,
                 z or f"not decided: {str(d)[:300]}")


def arr_copy(u):
    """the caller's data as it was"""
    return A(u.shape_, u.orig, u.k)


def coefficients(c, e, it, j, want, nk, N, parity, n, U):
    """e as one inverse transform: compare its coefficients at a generic wavenumber (only the parts the transform reads)"""
    meta = tab("meta")
    e = sp.expand(sym.nf(e))
    terms = []
    for t in sp.Add.make_args(e):
        fs = [x for x in t.atoms(sp.Function) if x.func.__name__ in meta and meta[x.func.__name__].kind == "transform" and meta[x.func.__name__].t == it
              and x.args == (j,)]
        if len(fs) != 1:
            return False
        co = sp.expand(t / fs[0])
        m = meta[fs[0].func.__name__]
        if co.has(fs[0]) or j in co.free_symbols or not c.valid(iz(m.n) == iz(N)) or (it == "irfft" and co.is_real is not True):
            return False
        terms.append((co, m))
    b = sym.intsym(sym.BV)

    def total(k):
        r = sp.Integer(0)
        for co, m in terms:
            g = m.g.subs(b, sy(k)) if m.g is not None else m.f(k)
            r += co * g
        return r

    def body(k):
        d = total(k) - want(k)
        if sym.is_zero(d):
            return True
        if it != "irfft":
            return False
        q = k
        if c.decide(k.e == 0):
            q = 0
        elif c.decide(k.e * 2 == iz(N)):
            q = N // 2
        if q is k:
            return False
        U0 = sp.Symbol("uhat", real=True)
        d = sp.expand(sym.nf(total(q) - want(q))).subs(U.at(q).e, U0)
        if isinstance(n, SInt):
            p = sp.Symbol("p!", integer=True, nonnegative=True)
            return all(c.valid(n.e % 2 != r) or sp.expand(sp.re(sym.numer(d.subs(sy(n), 2 * p + r)))) == 0 for r in (0, 1))
        return sp.expand(sp.re(sp.expand(d))) == 0
    return all(r for _, _, r in sym.explore_local(body, 0, nk))


def c18bad(c, which):
    w = world()
    name = f"dx_{which}"
    fn = D + name
    f = fn_of(w, "rkstiff.derivatives", name)
    case = c.choose("case", ["float", "real", "str", "none", "negative", "shape", "complex", "2d"])
    N = new_int("N", 1)
    nk = N // 2 + 1 if which == "rfft" else N
    u, K = arr("u", (N,), "f"), arr("k", (nk,), "f")
    if case in ("float", "real", "str", "none"):
        v = {"float": Sc(2, "f"), "real": new_real("x"), "str": "1", "none": None}[case]
        refuses(c, f"{name}: a non-integer order is refused with TypeError", f, TypeError, fn, K, u, v)
    elif case == "negative":
        n = new_int("n")
        c.assume(n.e < 0)
        refuses(c, f"{name}: a negative order is refused with ValueError", f, ValueError, fn, K, u, n)
    elif case == "complex" and which == "rfft":
        n = new_int("n", 0)
        refuses(c, f"{name}: complex data is refused with TypeError", f, TypeError, fn, K, arr("z", (N,), "c"), n)
    elif case == "shape":
        L = new_int("L", 0)
        c.assume(L.e != iz(nk))
        n = new_int("n", 1)
        refuses(c, f"{name}: a wavenumber array of another length is refused with ValueError", f, ValueError, fn, arr("q", (L,), "f"), u, n)
    elif case == "2d":
        n = new_int("n", 1)
        r = new_int("r", 2)
        refuses(c, f"{name}: a wavenumber array of another shape is refused with ValueError", f, ValueError, fn, arr("q", (r, nk), "f"), u, n)


# ---------------------------------------------------------------- C19
def cheb_x(n, a, b):
    return lambda j: a + (b - a) * (1 - sp.cos(sp.pi * sy(j) / sy(n))) / 2


def interval(c, args):
    if args == "default":
        return (), sp.Integer(-1), sp.Integer(1)
    if args == "int":
        x, y = new_int("a"), new_int("b")
        c.assume(x.e < y.e)
        return (x, y), sy(x), sy(y)
    x, y = new_real("a"), new_real("b")
    c.assume(sym.to_z3(x.e) < sym.to_z3(y.e))
    return (x, y), x.e, y.e


def c19grid(c, name, args):
    w = world()
    fn = G + name
    f = fn_of(w, "rkstiff.grids", name)
    n = new_int("n")
    av, a, b = interval(c, args)
    s, r = call(f, n, *av)
    if s == "raised":
        c.prove(f"{name}: every n >= 2 is accepted", n.e < 2, fn, f"raised {type(r).__name__}: {r};")
        c.prove(f"{name}: smaller n is refused with ValueError", isinstance(r, ValueError), fn, f"{type(r).__name__}: {r}")
        return
    c.prove(f"{name}: n < 2 is refused", n.e >= 2, fn)
    if not c.valid(n.e >= 2):
        return
    x = r
    if name == "construct_x_dx_cheb":
        if not (isinstance(r, tuple) and len(r) == 2):
            c.prove(f"{name}: returns (x, D)", False, fn)
            return
        x, Dm = r
    X = cheb_x(n, a, b)
    if name == "construct_x_cheb":
        prove_array(c, f"{name}: grid points", x, (n + 1,), X, fn)
        return
    part = c.choose("part", ["grid", "off", "diagonal"])
    if part == "grid":
        prove_array(c, f"{name}: grid points", x, (n + 1,), X, fn)
        return
    if not prove_shape(c, f"{name}: matrix", Dm, (n + 1, n + 1), fn):
        return

    def cc(i):
        s_ = sym.minus_one_pow(sy(i))
        return 2 * s_ if sarr.cmp(i, "==", 0) or sarr.cmp(i, "==", n) else s_

    def spec(i, j):
        return sym.nf(cc(i)) / (cc(j) * (X(i) - X(j)))
    c.data["points"] = [0, n]
    if part == "off":
        i, j = generic((n + 1, n + 1))
        c.assume(iz(i) != iz(j))
        prove_zero(f"{name}: entries c_i/(c_j (x_i - x_j)) off the diagonal", Dm.at(i, j).e - spec(i, j), fn)
        return
    i, = generic((n + 1,))
    S = sym.make_sum(lambda j: sp.Integer(0) if sarr.same(i, j) else spec(i, j), 0, n + 1, "f")
    prove_zero(f"{name}: rows sum to zero", Dm.at(i, i).e + S, fn)


def c19bad(c):
    w = world()
    for name in ("construct_x_cheb", "construct_x_dx_cheb"):
        f = fn_of(w, "rkstiff.grids", name)
        for what, v in BADINT:
            refuses(c, f"{name}: {what} is refused with TypeError", f, TypeError, G + name, v())


def c19dx(c, order, ndim, uk):
    w = world()
    fn = D + "dx_cheb"
    f = fn_of(w, "rkstiff.derivatives", "dx_cheb")
    r_, c_ = new_int("rows", 1), new_int("cols", 1)
    Dm = mat("D", (r_, c_))
    shape = tuple(new_int(f"u{i}", 1) for i in range(ndim))
    u = arr("u", shape, uk)
    if order == "symbolic":
        n = new_int("n", 1)
        av = (n,)
    elif order == "default":
        n, av = 1, ()
    else:
        n, av = order, (order,)
    good = z3.And(r_.e == c_.e, r_.e == shape[0].e) if ndim in (1, 2) else z3.BoolVal(False)
    s, r = call(f, Dm, u, *av)
    what = f"dx_cheb of {ndim}-D data"
    unchanged(c, f"{what}: the data", u, fn)
    unchanged(c, f"{what}: the matrix", Dm, fn)
    if order == 0:
        if s == "raised":
            c.prove(f"{what}: n = 0 on matching shapes is accepted", z3.Not(good), fn, f"raised {type(r).__name__}: {r};")
            return
        if ndim in (1, 2) and c.valid(good):
            prove_array(c, f"{what}: n = 0 returns the data", r, shape, lambda *ix: u.f(*[sy(i) for i in ix]), fn)
        elif ndim in (1, 2):
            prove_array(c, f"{what}: n = 0 returns the data", r, shape, lambda *ix: u.f(*[sy(i) for i in ix]), fn)
        return
    if s == "raised":
        c.prove(f"{what}: matching shapes are accepted", z3.Not(good), fn, f"raised {type(r).__name__}: {r};")
        c.prove(f"{what}: mismatched shapes are refused with ValueError", isinstance(r, ValueError), fn, f"{type(r).__name__}: {r}")
        return
    c.prove(f"{what}: mismatched shapes are refused", good, fn)
    if not c.valid(good) or not prove_shape(c, what, r, shape, fn):
        return
    nm = f"{what}: the n-th power of the matrix applied to each column"
    e = next((sp.Integer(k) for k in range(5) if order == "symbolic" and c.valid(n.e == k)), sy(n))
    w_ = sarr.simplify_word(((Dm.name, e),))
    im = getattr(r, "image", None)
    if im is not None and getattr(r.buf, "word", 0) == 0 and sarr.simplify_word(im[0]) == w_:
        ix = generic(shape)
        prove_zero(nm, im[1].at(*ix).e - u.f(*[sy(i) for i in ix]), fn)
        return
    S = sarr.image(w_, arr_copy(u), shape)
    ix = generic(shape)
    prove_zero(nm, r.at(*ix).e - S.at(*ix).e, fn)


def c19badn(c):
    w = world()
    fn = D + "dx_cheb"
    f = fn_of(w, "rkstiff.derivatives", "dx_cheb")
    m = new_int("m", 1)
    Dm, u = mat("D", (m, m)), arr("u", (m,), "f")
    case = c.choose("case", ["float", "real", "str", "none", "negative"])
    if case == "negative":
        n = new_int("n")
        c.assume(n.e < 0)
        refuses(c, "dx_cheb: a negative order is refused with ValueError", f, ValueError, fn, Dm, u, n)
        return
    v = {"float": Sc(2, "f"), "real": new_real("x"), "str": "1", "none": None}[case]
    refuses(c, "dx_cheb: a non-integer order is refused with TypeError", f, TypeError, fn, Dm, u, v)


# ---------------------------------------------------------------- C20
def z3of(x):
    return sym.to_z3(scalar(x).e)


class HankelSpec:
    def __init__(self, nr, rmax):
        self.nr, self.rmax = nr, rmax
        self.Z = sym.special("Z0")
        self.J0, self.J1 = sym.special("J0"), sym.special("J1")
        self.N = sy(nr)
        self.R = scalar(rmax).e

    def z(self, i): return self.Z(sp.expand(sy(i)))
    def jN(self): return self.Z(self.N)

    def Y(self, i, j):
        return 2 * self.J0(sp.expand(self.z(i) * self.z(j) / self.jN())) / (self.jN() * self.J1(self.z(j)) ** 2)

    def ht(self, f, i, inverse):
        s = sym.make_sum(lambda k: self.Y(i, k) * f(k), 0, self.nr, "f")
        return (self.jN() / self.R ** 2 if inverse else self.R ** 2 / self.jN()) * s


PARTS = ["nr", "rmax", "r", "kr", "bessel_zeros", "hankel_matrix", "ht", "iht", "ht2", "iht2"]


def prove_hankel(c, when, h, nr, rmax, part):
    """one observable of the object equals its specification for (nr, rmax)"""
    S = HankelSpec(nr, rmax)
    nm = f"{when}: {part}"
    if part == "nr":
        v = returns(c, nm, H + ".nr", lambda: h.nr)
        c.prove(f"{nm} is the current one", (iz(v) == iz(nr)) if isinstance(v, (SInt, int)) else False, H + ".nr", f"{v!r}")
    elif part == "rmax":
        v = scalar(returns(c, nm, H + ".rmax", lambda: h.rmax))
        if v is None or v.e is sp.nan:
            c.prove(f"{nm} is the current one", False, H + ".rmax")
            return
        prove_zero(f"{nm} is the current one", v.e - S.R, H + ".rmax")
    elif part == "r":
        prove_array(c, nm, returns(c, nm, H + ".r", lambda: h.r), (nr,), lambda i: S.R * S.z(i) / S.jN(), H + "._setnr_setrmax")
    elif part == "kr":
        prove_array(c, nm, returns(c, nm, H + ".kr", lambda: h.kr), (nr,), lambda i: S.z(i) / S.R, H + "._setnr_setrmax")
    elif part == "bessel_zeros":
        prove_array(c, nm, returns(c, nm, H + ".bessel_zeros", h.bessel_zeros), (nr,), S.z, H + ".bessel_zeros")
    elif part == "hankel_matrix":
        prove_array(c, nm, returns(c, nm, H + ".hankel_matrix", h.hankel_matrix), (nr, nr), S.Y, H + ".hankel_matrix")
    else:
        inv = part[0] == "i"
        two = part[-1] == "2"
        meth = "iht" if inv else "ht"
        k = c.choose(("kind", part), ["f", "c"])
        if two:
            m = new_int("m", 1)
            f = arr("f", (nr, m), k)
            r = returns(c, nm, f"{H}.{meth}", getattr(h, meth), f)
            prove_array(c, nm, r, (nr, m), lambda i, j: S.ht(lambda q: f.f(sy(q), sy(j)), i, inv), f"{H}.{meth}")
        else:
            f = arr("f", (nr,), k)
            r = returns(c, nm, f"{H}.{meth}", getattr(h, meth), f)
            prove_array(c, nm, r, (nr,), lambda i: S.ht(lambda q: f.f(sy(q)), i, inv), f"{H}.{meth}")
        unchanged(c, f"{nm}: the argument", f, f"{H}.{meth}")


BADNR = {"small": lambda c: low_int(c), "float": lambda c: Sc(6, "f"), "str": lambda c: "7", "none": lambda c: None}
BADRMAX = {"nonpositive": lambda c: low_real(c), "nan": lambda c: Sc(sp.nan), "zero": lambda c: 0}


def low_int(c):
    n = new_int("bad")
    c.assume(n.e < 4)
    return n


def low_real(c):
    r = new_real("bad")
    c.assume(sym.to_z3(r.e) <= 0)
    return r


def fresh_params(c, tag, rk="f"):
    n = new_int("nr" + tag, 4)
    if rk == "i":
        r = new_int("rmax" + tag, 1)
    else:
        r = new_real("rmax" + tag)
        c.assume(sym.to_z3(r.e) > 0)
    return n, r


def c20(c, ops, part, tamper):
    """construction, a sequence of assignments, then one observable"""
    w = world()
    C = fn_of(w, "rkstiff.transforms", "HankelTransform")
    fn = H
    nr, rmax = fresh_params(c, "", "i" if ops == ("intrmax",) else "f")
    if ops == ("default",):
        rmax = Sc(1)
        h = returns(c, "HankelTransform(nr)", fn, C, nr)
        ops = ()
    else:
        h = returns(c, "HankelTransform(nr, rmax)", fn, C, nr, rmax)
    if ops == ("intrmax",):
        ops = ()
    when = "after construction" if not ops else "after " + ", ".join(ops)
    other = None
    for k, op in enumerate(ops):
        if op == "nr":
            v, _ = fresh_params(c, f"_{k}")
            s, x = call(setattr, h, "nr", v)
            c.prove("assignment of nr >= 4 is accepted", s == "ok", fn + ".nr", str(x))
            nr = v
        elif op == "rmax":
            _, v = fresh_params(c, f"_{k}")
            s, x = call(setattr, h, "rmax", v)
            c.prove("assignment of rmax > 0 is accepted", s == "ok", fn + ".rmax", str(x))
            rmax = v
        elif op.startswith("bad nr"):
            v = BADNR[op.split(":")[1]](c)
            refuses(c, "assignment of another nr raises ValueError", setattr, ValueError, fn + ".nr", h, "nr", v)
        elif op.startswith("bad rmax"):
            v = BADRMAX[op.split(":")[1]](c)
            refuses(c, "assignment of another rmax raises ValueError", setattr, ValueError, fn + ".rmax", h, "rmax", v)
        elif op == "other":
            n2, r2 = fresh_params(c, f"_{k}")
            other = C(n2, r2)
            n3, _ = fresh_params(c, f"_{k}b")
            other.nr = n3
        elif op == "use":
            f = arr("g", (nr,), "f")
            h.ht(f)
            h.iht(f)
            h.hankel_matrix()
            h.bessel_zeros()
        elif op == "tamper":
            for g in (h.hankel_matrix, h.bessel_zeros):
                a = returns(c, "a returned array", fn, g)
                s, x = call(a.__setitem__, slice(None), new_real("junk"))
        else:
            raise AssertionError(op)
    prove_hankel(c, when, h, nr, rmax, part)


def c20inductive(c, op):
    """the instance state after an assignment is that of a newly constructed object"""
    w = world()
    C = fn_of(w, "rkstiff.transforms", "HankelTransform")
    nr, rmax = fresh_params(c, "")
    h = returns(c, "HankelTransform(nr, rmax)", H, C, nr, rmax)
    n2, r2 = fresh_params(c, "_2")
    before = class_state(w)
    if op == "nr":
        h.nr = n2
        nr = n2
    elif op == "rmax":
        h.rmax = r2
        rmax = r2
    elif op.startswith("bad nr"):
        call(setattr, h, "nr", BADNR[op.split(":")[1]](c))
    elif op.startswith("bad rmax"):
        call(setattr, h, "rmax", BADRMAX[op.split(":")[1]](c))
    elif op == "use":
        f = arr("g", (nr,), "f")
        h.ht(f)
        h.iht(f)
        h.hankel_matrix()
        h.bessel_zeros()
    if class_state(w) != before:
        raise Unsupported("state outside the instance changes")
    g = C(nr, rmax)
    a, b = dict(vars(h)), dict(vars(g))
    if set(a) != set(b):
        raise Unsupported("other attributes than a new object")
    q = c.choose("attribute", sorted(a))
    nm = f"after {op}: attribute {q} is that of a new object"
    x, y = a[q], b[q]
    if isinstance(x, A) and isinstance(y, A):
        if x.ndim != y.ndim or not c.valid(z3.And([iz(s) == iz(t) for s, t in zip(x.shape_, y.shape_)])):
            raise Unsupported(f"attribute {q} differs in shape from a new object's")
        ix = generic(x.shape_)
        if not sym.is_zero(x.at(*ix).e - y.at(*ix).e):
            raise Unsupported(f"attribute {q} differs from a new object's")
    elif isinstance(x, (SInt, int, Sc)) and isinstance(y, (SInt, int, Sc)):
        if not sym.is_zero(scalar(x).e - scalar(y).e):
            raise Unsupported(f"attribute {q} differs from a new object's")
    elif x is None and y is None:
        pass
    else:
        raise Unsupported(f"attribute {q} cannot be compared")
    c.report.add(nm, core.PROVED, H, "exact normal form")


def class_state(w):
    """module and class level state of the package"""
    out = {}
    for mn, m in w.mods.items():
        for k, v in vars(m).items():
            if k.startswith("__"):
                continue
            out[mn, k] = (id(v), repr(v) if isinstance(v, (dict, list, set)) else None)
            if isinstance(v, type):
                for k2, v2 in vars(v).items():
                    if not k2.startswith("__"):
                        out[mn, k, k2] = (id(v2), repr(v2) if isinstance(v2, (dict, list, set)) else None)
    return out


def c20new(c, what, kind):
    w = world()
    C = fn_of(w, "rkstiff.transforms", "HankelTransform")
    F = fn_of(w, "rkstiff.grids", "construct_r_kr_hankel")
    nr, rmax = fresh_params(c, "")
    if what == "nr":
        nr = BADNR[kind](c)
    elif what == "rmax":
        rmax = BADRMAX[kind](c)
    if what == "grid":
        fn = G + "construct_r_kr_hankel"
        r = returns(c, "construct_r_kr_hankel", fn, F, nr, rmax)
        S = HankelSpec(nr, rmax)
        if not (isinstance(r, tuple) and len(r) == 4):
            c.prove("construct_r_kr_hankel: returns (r, kr, zeros, jN)", False, fn)
            return
        prove_array(c, "construct_r_kr_hankel: r", r[0], (nr,), lambda i: S.R * S.z(i) / S.jN(), fn)
        prove_array(c, "construct_r_kr_hankel: kr", r[1], (nr,), lambda i: S.z(i) / S.R, fn)
        prove_array(c, "construct_r_kr_hankel: zeros", r[2], (nr,), S.z, fn)
        j = scalar(r[3])
        if j is None:
            c.prove("construct_r_kr_hankel: jN", False, fn)
        else:
            prove_zero("construct_r_kr_hankel: jN", j.e - S.jN(), fn)
        return
    refuses(c, f"HankelTransform: {what} ({kind}) is refused with ValueError", C, ValueError, H, nr, rmax)
    refuses(c, f"construct_r_kr_hankel: {what} ({kind}) is refused with ValueError", F, ValueError, G + "construct_r_kr_hankel", nr, rmax)


# ---------------------------------------------------------------- C21
def c21(c, which, part):
    w = world()
    name = f"{which}_ops"
    fn = M + name
    f = fn_of(w, "rkstiff.models", name)
    m = new_int("modes", 2)
    K = arr("k", (m,), "f")
    mu = new_real("mu")
    L, Nf = returns(c, name, fn, f, *((K,) if which == "kdv" else (K, mu)))
    lin = (lambda k: sp.I * K.f(sy(k)) ** 3) if which == "kdv" else (lambda k: -mu.e * K.f(sy(k)) ** 2)
    if part == "linear":
        prove_array(c, f"{name}: linear operator", L, (m,), lin, fn)
        unchanged(c, f"{name}: kx", K, fn)
        return
    const = -6 if which == "kdv" else -1

    def spec(V):
        n = (m - 1) * 2
        a = sarr.Lin("irfft", lambda q: Sc(V.f(sy(q)), "c"), m, n)
        b = sarr.Lin("irfft", lambda q: Sc(sp.I * K.f(sy(q)) * V.f(sy(q)), "c"), m, n)
        r = sarr.Lin("rfft", lambda x: Sc(a.at(x) * b.at(x), "f"), n, n)
        return lambda k: const * r.at(k)
    V, W = arr("v", (m,), "c"), arr("w", (m,), "c")
    nfn = fn + ".nl_func"
    r1 = returns(c, f"{name}: N(u)", nfn, Nf, V)
    if part == "nonlinear":
        prove_array(c, f"{name}: N(u)", r1, (m,), spec(V), nfn)
        unchanged(c, f"{name}: the argument of N", V, nfn)
        unchanged(c, f"{name}: kx", K, nfn)
        return
    # purity: later calls, other operators
    K2 = arr("q", (m,), "f")
    L2, N2 = returns(c, name, fn, f, *((K2,) if which == "kdv" else (K2, new_real("nu"))))
    returns(c, f"{name}: N(u)", nfn, N2, W)
    returns(c, f"{name}: N(u)", nfn, Nf, W)
    if part == "stable":
        prove_array(c, f"{name}: a result is not changed by later calls", r1, (m,), spec(V), nfn)
        prove_array(c, f"{name}: the linear operator is not changed by later calls", L, (m,), lin, fn)
    else:
        r3 = returns(c, f"{name}: N(u)", nfn, Nf, V)
        prove_array(c, f"{name}: equal arguments give equal results", r3, (m,), spec(V), nfn)
        unchanged(c, f"{name}: the argument of N", V, nfn)
        unchanged(c, f"{name}: kx", K, nfn)


def c21ac(c, part, vk):
    w = world()
    name = "allen_cahn_ops"
    fn = M + name
    f = fn_of(w, "rkstiff.models", name)
    m = new_int("points", 3)
    x = arr("x", (m,), "f")
    Dm = mat("D", (m, m))
    if part == "default":
        eps, av = sp.Rational(1, 100), ()
    else:
        e = new_real("eps")
        eps, av = e.e, (e,)
    L, Nf = returns(c, name, fn, f, x, Dm, *av)
    nfn = fn + ".nl_func"
    if part in ("linear", "default"):
        D2 = sarr.word_array(((Dm.name, sp.Integer(2)),), (m, m))
        prove_array(c, f"{name}: linear operator", L, (m - 2, m - 2),
                    lambda i, j: eps * D2.at(i + 1, j + 1).e + (1 if sarr.same(i, j) else 0), fn)
        unchanged(c, f"{name}: D", Dm, fn)
        unchanged(c, f"{name}: x", x, fn)
        return
    V, W = arr("v", (m - 2,), vk), arr("w", (m - 2,), vk)
    r1 = returns(c, f"{name}: N(v)", nfn, Nf, V)

    def spec(i):
        xi = x.f(sp.expand(sy(i) + 1))
        return xi - (V.f(sy(i)) + xi) ** 3
    if part == "nonlinear":
        prove_array(c, f"{name}: N(v)", r1, (m - 2,), spec, nfn)
        unchanged(c, f"{name}: the argument of N", V, nfn)
        unchanged(c, f"{name}: x", x, nfn)
        return
    returns(c, f"{name}: N(v)", nfn, Nf, W)
    prove_array(c, f"{name}: a result is not changed by later calls", r1, (m - 2,), spec, nfn)
    r3 = returns(c, f"{name}: N(v)", nfn, Nf, V)
    prove_array(c, f"{name}: equal arguments give equal results", r3, (m - 2,), spec, nfn)
    unchanged(c, f"{name}: the argument of N", V, nfn)


# ---------------------------------------------------------------- C22
def soliton(a, x0, t, x):
    return a ** 2 / 2 * sp.sech(a * (x - x0 - a ** 2 * t) / 2) ** 2


def c22(c, kind):
    w = world()
    fn = M + "kdv_soliton"
    f = fn_of(w, "rkstiff.models", "kdv_soliton")
    n = new_int("n", 1)
    x = arr("x", (n,), "f")
    new = {"int": lambda q: new_int(q)}.get(kind, new_real)
    a, x0, t = new("a"), new("x0"), new("t")
    if kind == "default":
        r = returns(c, "kdv_soliton", fn, f, x)
        a, x0, t = Sc(sp.Rational(1, 2)), Sc(0), Sc(0)
    elif kind == "keyword":
        r = returns(c, "kdv_soliton", fn, lambda: f(x, ampl=a, x0=x0, t=t))
    else:
        r = returns(c, "kdv_soliton", fn, f, x, a, x0, t)
    a, x0, t = scalar(a).e, scalar(x0).e, scalar(t).e
    unchanged(c, "kdv_soliton: x", x, fn)
    if kind != "pde":
        prove_array(c, "kdv_soliton", r, (n,), lambda i: soliton(a, x0, t, x.f(sy(i))), fn)
        return
    if not prove_shape(c, "kdv_soliton", r, (n,), fn):
        return
    i, = generic((n,))
    X = sp.Symbol("X", real=True)
    u = r.at(i).e.subs(x.f(sy(i)), X)
    res = sp.diff(u, t) + 6 * u * sp.diff(u, X) + sp.diff(u, X, 3)
    tab("zreal")[X] = z3.Real("X")
    prove_zero("kdv_soliton: u_t + 6 u u_x + u_xxx = 0", res, fn)


class Seq:
    """caller's sequence of unknown length and elements"""

    def __init__(self, a):
        self.a = a

    def _rkv_len(self): return self.a.shape_[0]
    def _rkv_array(self): return self.a.copy()

    def __getitem__(self, i): return self.a[i]

    def __iter__(self): raise Unsupported("iteration over a sequence of unknown length")


def c22multi(c, form, count):
    w = world()
    fn = M + "kdv_multi_soliton"
    f = fn_of(w, "rkstiff.models", "kdv_multi_soliton")
    n = new_int("n", 1)
    x = arr("x", (n,), "f")
    t = new_real("t")
    if count is None:
        m = new_int("m", 0)
        ka, kx = {"arrays": ("f", "f"), "int arrays": ("i", "i"), "sequences": ("f", "i"), "int sequences": ("i", "f")}[form]
        am, xs = arr("a", (m,), ka), arr("p", (m,), kx)
        A_, X_ = (am, xs) if "arrays" in form else (Seq(am), Seq(xs))
        fa, fx = lambda q: am.f(sy(q)), lambda q: xs.f(sy(q))
    else:
        m = count
        mk = new_int if form == "int lists" else new_real
        A_, X_ = [mk("a") for _ in range(m)], [mk("p") for _ in range(m)]
        if form == "mixed lists" and m:
            A_[0] = new_int("a")
        fa, fx = lambda q: scalar(A_[q]).e, lambda q: scalar(X_[q]).e
        if form == "tuples":
            A_, X_ = tuple(A_), tuple(X_)
    r = returns(c, "kdv_multi_soliton", fn, f, x, A_, X_, t)
    unchanged(c, "kdv_multi_soliton: x", x, fn)

    def spec(i):
        g = lambda q: soliton(fa(q), fx(q), t.e, x.f(sy(i)))
        if count is not None:
            return sp.Add(*[g(q) for q in range(m)])
        return sym.make_sum(g, 0, m, "f")
    prove_array(c, f"kdv_multi_soliton ({form}): sum of the single solitons", r, (n,), spec, fn)
    if count is None:
        unchanged(c, "kdv_multi_soliton: amplitudes", am, fn)
        unchanged(c, "kdv_multi_soliton: positions", xs, fn)


def c22default(c, count=None):
    w = world()
    fn = M + "kdv_multi_soliton"
    f = fn_of(w, "rkstiff.models", "kdv_multi_soliton")
    if count is not None:
        n = new_int("n", 1)
        x = arr("x", (n,), "f")
        am, xs = [new_real("a") for _ in range(count)], [new_real("p") for _ in range(count)]
        r = returns(c, "kdv_multi_soliton", fn, f, x, am, xs)
        prove_array(c, "kdv_multi_soliton at the default time", r, (n,),
                    lambda i: sp.Add(*[soliton(a.e, p.e, sp.Integer(0), x.f(sy(i))) for a, p in zip(am, xs)]), fn)
        return
    n, m = new_int("n", 1), new_int("m", 0)
    x, am, xs = arr("x", (n,), "f"), arr("a", (m,), "f"), arr("p", (m,), "f")
    r = returns(c, "kdv_multi_soliton", fn, f, x, am, xs)
    prove_array(c, "kdv_multi_soliton at the default time", r, (n,),
                lambda i: sym.make_sum(lambda q: soliton(am.f(sy(q)), xs.f(sy(q)), 0, x.f(sy(i))), 0, m, "f"), fn)


def c22bad(c):
    w = world()
    fn = M + "kdv_multi_soliton"
    f = fn_of(w, "rkstiff.models", "kdv_multi_soliton")
    n = new_int("n", 1)
    x = arr("x", (n,), "f")
    case = c.choose("case", ["arrays", "sequences", "lists"])
    if case == "lists":
        la = c.choose("la", [0, 1, 2, 3])
        lb = c.choose("lb", [0, 1, 2, 3])
        if la == lb:
            return
        refuses(c, "kdv_multi_soliton: different lengths are refused with ValueError", f, ValueError, fn, x, [new_real("a") for _ in range(la)],
                [new_real("p") for _ in range(lb)])
        return
    m1, m2 = new_int("m1", 0), new_int("m2", 0)
    c.assume(m1.e != m2.e)
    a, p = arr("a", (m1,), "f"), arr("p", (m2,), "f")
    if case == "sequences":
        a, p = Seq(a), Seq(p)
    refuses(c, "kdv_multi_soliton: different lengths are refused with ValueError", f, ValueError, fn, x, a, p)


# ---------------------------------------------------------------- C23
def c23(c, form, kind):
    w = world()
    fn = G + "mirror_grid"
    f = fn_of(w, "rkstiff.grids", "mirror_grid")
    n = new_int("n", 1)
    r = arr("r", (n,), "i" if kind == "i" else "f")

    def grid(i):
        return -r.f(sp.expand(sy(n) - 1 - sy(i))) if sarr.cmp(i, "<", n) else r.f(sp.expand(sy(i) - sy(n)))
    axis = {"none": None, "default": -1, "-1": -1, "0": 0, "1": 1}[form]
    if form == "none":
        how = c.choose("how", ["omitted", "explicit", "axis 0", "axis 1"])
        out = returns(c, "mirror_grid without values", fn, f, r) if how == "omitted" else \
            returns(c, "mirror_grid without values", fn, f, r, None, *([int(how[-1])] if how[-1] in "01" else []))
        ok = isinstance(out, tuple) and len(out) == 2
        c.prove("mirror_grid: without u the values are None", ok and out[1] is None, fn)
        if ok:
            prove_array(c, "mirror_grid: grid", out[0], (n * 2,), grid, fn)
        unchanged(c, "mirror_grid: r", r, fn)
        return
    m = new_int("m", 1)
    shape = {"default": (n,), "-1": (n,), "0": (n, m), "1": (m, n)}[form]
    u = arr("u", shape, kind)
    out = returns(c, f"mirror_grid axis {form}", fn, f, r, u) if form == "default" else \
        returns(c, f"mirror_grid axis {form}", fn, lambda: f(r, u, axis=axis)) if kind != "c" else returns(c, f"mirror_grid axis {form}", fn, f, r, u, axis)
    if not (isinstance(out, tuple) and len(out) == 2):
        c.prove("mirror_grid: returns (r, u)", False, fn)
        return
    ax = 0 if form in ("default", "-1", "0") else 1
    sh = list(shape)
    sh[ax] = n * 2

    def val(*ix):
        i = ix[ax]
        j = sp.expand(sy(n) - 1 - sy(i)) if sarr.cmp(i, "<", n) else sp.expand(sy(i) - sy(n))
        ix = [sy(q) for q in ix]
        ix[ax] = j
        return u.f(*ix)
    part = c.choose("part", ["grid", "values", "alias"])
    if part == "grid":
        prove_array(c, "mirror_grid: grid", out[0], (n * 2,), grid, fn)
    elif part == "values":
        prove_array(c, f"mirror_grid axis {form}: values", out[1], tuple(sh), val, fn)
    else:
        for a in out:
            if isinstance(a, A):
                a[...] = 9
    unchanged(c, "mirror_grid: r", r, fn)
    unchanged(c, "mirror_grid: u", u, fn)


def c23bad(c):
    w = world()
    fn = G + "mirror_grid"
    f = fn_of(w, "rkstiff.grids", "mirror_grid")
    n, m = new_int("n", 1), new_int("m", 1)
    r = arr("r", (n,), "f")
    nd = c.choose("nd", [1, 2, 3])
    u = arr("u", {1: (n,), 2: (n, m), 3: (n, n)}[nd], "f")
    k = c.choose("axis", ["int", "none", "str", "float"])
    if k == "int":
        ax = new_int("axis")
        c.assume(z3.And(ax.e != -1, ax.e != 0, ax.e != 1))
    else:
        ax = {"none": None, "str": "0", "float": Sc(sp.Rational(3, 2))}[k]
    refuses(c, "mirror_grid: any other axis is refused with ValueError", f, ValueError, fn, r, u, ax)


# ---------------------------------------------------------------- jobs
BASE = ["numpy contracts (shapes, broadcasting, views, copies, casting) are those of rkv/sarr.py; array elements are finite",
        "floating-point rounding is treated as exact arithmetic, except that the length of a float-step arange is not assumed"]
FFT = "contract of numpy.fft: rfft/irfft/fft/ifft are linear, ifft inverts fft, irfft reads only the real parts at 0 and Nyquist, default output lengths as documented"
ASSUME = {
    "C17": BASE + ["contract of fftfreq/rfftfreq/linspace/arange as documented"],
    "C18": BASE + [FFT, "fft and ifft are the sums of lemmas/fourier.lean; rfft and irfft the halves of them for real data",
                   "1-D input data; an odd-order derivative of the unresolved Nyquist mode is 0 for real data"],
    "C19": BASE + ["contract of chebpts2: -cos(pi j/(m-1))",
                   "contract of matrix_power: the n-th matrix power, LinAlgError (a ValueError) for a rectangular matrix"],
    "C20": BASE + ["contract of jn_zeros/j0/j1: the Bessel zeros and functions, not interpreted; no Bessel zero or J1 at a zero vanishes"],
    "C21": BASE + [FFT], "C22": BASE, "C23": BASE,
}


def run_job(j):
    pid, f, a = j
    fn = globals()[f]
    fb = None
    if f == "c18" and a[2] == "symbolic":
        fb = lambda why: instances(f, [a[:2] + (q,) + a[3:] for q in (1, 2, 3, 4)])
    if f == "c19dx" and a[0] == "symbolic":
        fb = lambda why: instances(f, [(q,) + a[1:] for q in (1, 2, 3, 4)])
    if f == "c22multi" and a[1] is None:
        fb = lambda why: instances(f, [({"arrays": "lists", "int arrays": "int lists"}.get(a[0], "mixed lists"), q) for q in range(1, 4)])
    if f == "c22default":
        fb = lambda why: instances(f, [(2,)])
    return job(fn, *a, what=f"{f}{a}", fallback=fb)


def instances(f, args):
    rep = Report()
    for a in args:
        r = job(globals()[f], *a, what=f"{f}{a}")
        if r.unsupported:
            return None
        rep.merge(r)
    return rep


def jobs(pid, tier):
    J = []
    add = lambda f, *a: J.append((pid, f, a))
    if pid == "C17":
        for w in ("rfft", "fft"):
            for p in (0, 1):
                for a in ("real", "int", "default", "keyword"):
                    add("c17", w, p, a)
            add("c17bad", w)
    elif pid == "C18":
        for w in ("rfft", "fft"):
            for p in (0, 1):
                for o in ("symbolic", "default", 0):
                    for uk in ("f", "i") if w == "rfft" else ("f", "i", "c"):
                        add("c18", w, p, o, uk, "f")
                add("c18", w, p, "symbolic", "f", "i")
            add("c18bad", w)
    elif pid == "C19":
        for n in ("construct_x_cheb", "construct_x_dx_cheb"):
            for a in ("real", "int", "default"):
                add("c19grid", n, a)
        add("c19bad")
        add("c19badn")
        for o in ("symbolic", "default", 0, 1, 2):
            for nd in (1, 2, 3):
                for uk in ("f", "c", "i"):
                    add("c19dx", o, nd, uk)
    elif pid == "C20":
        bn, br = ["bad nr:" + k for k in BADNR], ["bad rmax:" + k for k in BADRMAX]
        seqs = [(), ("default",), ("intrmax",), ("nr",), ("rmax",), ("tamper",), ("nr", "rmax"), ("rmax", "nr"), ("rmax", "rmax"), ("nr", "nr"), ("use", "nr"), ("use", "rmax"),
                ("use", "tamper"), ("other",), ("nr", "tamper"), ("rmax", "tamper"), ("rmax", "other"), ("use", "other")]
        seqs += [(b,) for b in bn + br] + [("use", b) for b in ("bad nr:small", "bad rmax:nan")] + [("nr", "bad rmax:nonpositive"), ("rmax", "bad nr:small")]
        if tier == "thorough":
            seqs += [s for s in itertools.product(["nr", "rmax", "use", "tamper", "bad nr:small", "bad rmax:nan", "other"], repeat=3)]
        for s in seqs:
            for p in PARTS:
                add("c20", s, p, False)
        for op in ["nr", "rmax", "use"] + bn + br:
            add("c20inductive", op)
        add("c20new", "grid", "")
        for k in ("small",):
            add("c20new", "nr", k)
        for k in BADRMAX:
            add("c20new", "rmax", k)
    elif pid == "C21":
        for w in ("kdv", "burgers"):
            for p in ("linear", "nonlinear", "stable", "repeat"):
                add("c21", w, p)
        for p in ("linear", "default", "nonlinear", "pure"):
            for vk in ("f", "c") if p in ("nonlinear", "pure") else ("f",):
                add("c21ac", p, vk)
    elif pid == "C22":
        for k in ("real", "int", "default", "keyword", "pde"):
            add("c22", k)
        for k in ("arrays", "int arrays", "sequences", "int sequences"):
            add("c22multi", k, None)
        for k in ("lists", "int lists", "mixed lists", "tuples"):
            for m in range(1, 5):
                add("c22multi", k, m)
        add("c22default")
        add("c22bad")
    elif pid == "C23":
        for form in ("none", "default", "-1", "0", "1"):
            for k in ("f", "c", "i"):
                add("c23", form, k)
        add("c23bad")
    return J


def verify(pid, tier, rep):
    for a in ASSUME[pid]:
        rep.assume(a)
    J = jobs(pid, tier)
    lem = {"C18": lemma.fourier, "C19": lemma.chebyshev}.get(pid)
    lem = lem and lem()
    for j, r in zip(J, parallel.run(run_job, [(j,) for j in J])):
        rep.merge(r)
    if lem:
        lem.done(rep)
