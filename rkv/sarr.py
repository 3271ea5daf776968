"""Contract model of numpy for arrays of symbolic shape: an array is a function from its index to an exact scalar.

Shapes are ints or symbolic ints; a condition on an index (joins, comparisons, slices) is decided by forking the path
(or the region, inside a sum or transform).  Buffers are versioned functions, so views see writes and results of
earlier operations do not.
"""
import math
import sympy as sp
import z3
from . import core
from .core import Unsupported, SInt, SBool, mkint, mkbool, Control
from .runtime import Shim, Missing, typelike
from . import sym
from .sym import Sc, sy, scalar, kmax, tab, opaque, Meta, to_int, iz


def dec(e):
    return core.ctx().decide(e) if not isinstance(e, bool) else e


def cmp(a, op, b):
    """decide a comparison of ints / symbolic ints"""
    if isinstance(a, int) and isinstance(b, int):
        return {"<": a < b, "<=": a <= b, "==": a == b, ">=": a >= b, ">": a > b}[op]
    x, y = iz(a), iz(b)
    return dec({"<": x < y, "<=": x <= y, "==": x == y, ">=": x >= y, ">": x > y}[op])


def same(a, b):
    if a is b:
        return True
    return cmp(a, "==", b)


class Buf:
    """storage: a function of the base index, replaced on every write"""

    def __init__(self, fn, shape, owner=None):
        self.fn = fn
        self.shape = shape
        self.owner = owner


class NDArray:
    pass


class A:
    """array (view of a buffer).  dims: per base axis ('f', i) fixed index or ('v', axis, start, step)"""
    __array_priority__ = 1000

    def __init__(self, shape, fn, k, buf=None, dims=None, word=None):
        self.shape_ = tuple(shape)
        self.k = k
        if buf is None:
            buf = Buf(fn, self.shape_)
            dims = [("v", i, 0, 1) for i in range(len(self.shape_))]
        self.buf = buf
        self.dims = dims
        self.image = None         # (word, operand) of a result that is an opaque matrix product applied to an array
        self.word = word          # (tuple of (matrix name, power), vector or None) while unmodified

    # ------------------------------------------------ shape
    @property
    def shape(self): return self.shape_

    @shape.setter
    def shape(self, s): raise Unsupported("assignment to .shape")

    @property
    def ndim(self): return len(self.shape_)

    @property
    def size(self):
        r = 1
        for d in self.shape_:
            r = d * r
        return r

    @property
    def dtype(self): return DType(self.k)

    def _rkv_len(self):
        if not self.shape_:
            raise TypeError("len() of unsized object")
        return self.shape_[0]

    def __len__(self):
        n = self._rkv_len()
        if isinstance(n, int):
            return n
        raise Unsupported("length of an array of symbolic length")

    def __iter__(self):
        n = self._rkv_len()
        if not isinstance(n, int):
            raise Unsupported("iteration over an array of symbolic length")
        return iter([self[i] for i in range(n)])

    # ------------------------------------------------ elements
    def snap(self):
        """element function at this moment"""
        fn, dims = self.buf.fn, list(self.dims)

        def get(ix):
            return fn(tuple(d[1] if d[0] == "f" else d[2] + ix[d[1]] * d[3] if d[3] == 1 else d[2] - ix[d[1]] for d in dims))
        return get

    def at(self, *ix):
        return self.snap()(ix)

    def write(self, val):
        """val: element function over this view's index"""
        self.word = None
        buf, dims = self.buf, list(self.dims)
        buf.word = None
        old = buf.fn
        shape = self.shape_
        if buf.owner is not None:
            tab("written").setdefault(buf.owner, True)

        def fn(bix):
            vi = [0] * len(shape)
            for x, d in zip(bix, dims):
                if d[0] == "f":
                    if not same(x, d[1]):
                        return old(bix)
                else:
                    v = x - d[2] if d[3] == 1 else d[2] - x
                    if not (cmp(v, ">=", 0) and cmp(v, "<", shape[d[1]])):
                        return old(bix)
                    vi[d[1]] = v
            return val(tuple(vi))
        buf.fn = fn

    def store(self, value):
        """in-place assignment with broadcasting and casting"""
        if isinstance(value, (list, tuple)):
            value = array(value)
        if isinstance(value, A):
            shape = broadcast([self.shape_, value.shape_], strict=0)
            g = view_fn(value, shape)
            k = value.k
        else:
            s = scalar(value)
            if s is None:
                raise Unsupported(f"assignment of {type(value).__name__} to array elements")
            g, k = (lambda ix: s), s.k
        self.write(cast_fn(g, k, self.k))

    # ------------------------------------------------ indexing
    def view(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        idx = list(idx)
        n = sum(1 for i in idx if i is not None and i is not Ellipsis)
        if n > self.ndim:
            raise IndexError("too many indices for array")
        if any(i is Ellipsis for i in idx):
            p = [j for j, i in enumerate(idx) if i is Ellipsis][0]
            idx[p:p + 1] = [slice(None)] * (self.ndim - n)
        else:
            idx += [slice(None)] * (self.ndim - n)
        shape, amap = [], {}
        ax = 0
        for i in idx:
            if i is None:
                shape.append(1)
                continue
            m = self.shape_[ax]
            if isinstance(i, bool):
                raise Unsupported("boolean index")
            if isinstance(i, Sc) and i.k == "i":
                i = to_int(i.e)
            if isinstance(i, (int, SInt)):
                if cmp(i, "<", 0):
                    i = i + m
                if cmp(i, "<", 0) or cmp(i, ">=", m):
                    raise IndexError("index out of bounds")
                amap[ax] = ("f", i)
            elif isinstance(i, slice):
                st, ln, step = slice_of(i, m)
                amap[ax] = ("v", len(shape), st, step)
                shape.append(ln)
            elif isinstance(i, Sc):
                raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis and integer or boolean arrays are valid indices")
            else:
                raise Unsupported(f"index of type {type(i).__name__}")
            ax += 1
        dims = []
        for d in self.dims:
            if d[0] == "f":
                dims.append(d)
                continue
            _, axis, s0, t0 = d
            e = amap[axis]
            if e[0] == "f":
                dims.append(("f", s0 + e[1] if t0 == 1 else s0 - e[1]))
            else:
                dims.append(("v", e[1], s0 + e[2] if t0 == 1 else s0 - e[2], t0 * e[3]))
        return A(shape, None, self.k, self.buf, dims)

    def __getitem__(self, i):
        if isinstance(i, A):
            return self.gather((i,))
        if isinstance(i, tuple) and any(isinstance(x, A) for x in i):
            return self.gather(i)
        v = self.view(i)
        if not v.shape_:
            return v.at()
        if intact(self) is not None and isinstance(i, slice) and i == slice(None):
            v.word = self.word
        return v

    def gather(self, idx):
        if len(idx) != self.ndim or not all(isinstance(x, A) and x.k == "i" for x in idx):
            raise Unsupported("indexing with arrays")
        shape = broadcast([x.shape_ for x in idx])
        gs = [view_fn(x, shape) for x in idx]
        f = self.snap()
        sh = self.shape_

        def fn(ix):
            out = []
            for g, m in zip(gs, sh):
                i = to_int(g(ix).e)
                if cmp(i, "<", 0):
                    i = i + m
                out.append(i)
            return f(tuple(out))
        return A(shape, fn, self.k)

    def __setitem__(self, i, value):
        if isinstance(i, A) and i.k == "b" or isinstance(i, tuple) and any(isinstance(x, A) for x in i):
            if isinstance(i, A):
                m = view_fn(i, self.shape_)
                old = self.snap()
                s = scalar(value)
                if s is None:
                    raise Unsupported("assignment through a mask")
                g = cast_fn(lambda ix: s, s.k, self.k)
                self.write(lambda ix: g(ix) if truth(m(ix)) else old(ix))
                return
            raise Unsupported("assignment through index arrays")
        self.view(i).store(value)

    # ------------------------------------------------ arithmetic
    def _b(self, o, f, rev=False):
        o = operand(o)
        if o is None:
            return NotImplemented
        return elementwise(f, *((o, self) if rev else (self, o)))

    def __add__(self, o): return self._b(o, OPS["add"])
    def __radd__(self, o): return self._b(o, OPS["add"], True)
    def __sub__(self, o): return self._b(o, OPS["sub"])
    def __rsub__(self, o): return self._b(o, OPS["sub"], True)
    def __mul__(self, o): return self._b(o, OPS["mul"])
    def __rmul__(self, o): return self._b(o, OPS["mul"], True)
    def __truediv__(self, o): return self._b(o, OPS["div"])
    def __rtruediv__(self, o): return self._b(o, OPS["div"], True)
    def __pow__(self, o): return self._b(o, OPS["pow"])
    def __rpow__(self, o): return self._b(o, OPS["pow"], True)
    def __neg__(self): return elementwise(lambda a: -a, self)
    def __pos__(self): return self.copy()
    def __abs__(self): return elementwise(abs, self)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)

    def _i(self, o, f):
        r = self._b(o, f)
        if r is NotImplemented:
            return r
        if sym.RANK[r.k] > sym.RANK[self.k]:
            raise TypeError("Cannot cast ufunc output")
        if len(r.shape_) != self.ndim or not all(same(a, b) for a, b in zip(r.shape_, self.shape_)):
            raise ValueError("non-broadcastable output operand")
        self.write(r.snap())
        return self

    def __iadd__(self, o): return self._i(o, OPS["add"])
    def __isub__(self, o): return self._i(o, OPS["sub"])
    def __imul__(self, o): return self._i(o, OPS["mul"])
    def __itruediv__(self, o): return self._i(o, OPS["div"])
    def __ipow__(self, o): return self._i(o, OPS["pow"])

    def _cmp(self, o, f):
        o = operand(o)
        if o is None:
            return NotImplemented
        return elementwise(f, self, o, kind="b")

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    __hash__ = None

    def __bool__(self):
        if self.ndim == 0:
            return bool(self.at())
        raise Unsupported("truth value of an array")

    # ------------------------------------------------ methods
    @property
    def T(self): return self.transpose()

    def transpose(self, *axes):
        if axes and axes != (1, 0) and axes != ((1, 0),):
            raise Unsupported("general transposition")
        n = self.ndim
        if n < 2:
            return self
        if n > 2:
            raise Unsupported("transpose of a 3-D array")
        return A(self.shape_[::-1], None, self.k, self.buf, [d if d[0] == "f" else ("v", 1 - d[1], d[2], d[3]) for d in self.dims])

    def copy(self, *a, **k): return A(self.shape_, self.snap(), self.k, word=intact(self))

    def reshape(self, *s, **kw):
        if kw:
            raise Unsupported("reshape options")
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        s = tuple(to_int(x.e) if isinstance(x, Sc) else x for x in s)
        if any(isinstance(x, int) and x == -1 for x in s):
            mine = [d for d in self.shape_ if not (isinstance(d, int) and d == 1)]
            oth = [x for x in s if not (isinstance(x, int) and x in (1, -1))]
            if len(oth) == 0:
                v = 1 if not mine else mine[0]
                if len(mine) > 1:
                    v = self.size
            elif len(mine) == len(oth) and all(same(a, b) for a, b in zip(mine, oth)):
                v = 1
            else:
                raise Unsupported("reshape with -1")
            s = tuple(v if isinstance(x, int) and x == -1 else x for x in s)
        core1 = [(i, d) for i, d in enumerate(self.shape_) if not (isinstance(d, int) and d == 1)]
        core2 = [(i, d) for i, d in enumerate(s) if not (isinstance(d, int) and d == 1)]
        if len(core1) == len(core2) and all(same(a[1], b[1]) for a, b in zip(core1, core2)):
            pos = {a[0]: b[0] for a, b in zip(core1, core2)}
            dims = [d if d[0] == "f" else ("v", pos[d[1]], d[2], d[3]) if d[1] in pos else ("f", d[2]) for d in self.dims]
            return A(s, None, self.k, self.buf, dims)
        tot = 1
        for x in s:
            tot = x * tot
        if not same(tot, self.size):
            raise ValueError("cannot reshape array")
        if len(core1) == 1 or len(core2) == 1:
            if len(core1) == len(core2):
                pass
        raise Unsupported("general reshape")

    def ravel(self, *a, **k):
        if self.ndim == 1:
            return self
        return self.reshape(-1)

    def flatten(self, *a, **k): return self.ravel().copy()
    def squeeze(self, *a, **k):
        if a or k:
            raise Unsupported("squeeze of an axis")
        return self.reshape(tuple(d for d in self.shape_ if not (isinstance(d, int) and d == 1)))

    def astype(self, t, *a, **kw):
        k = kind_of(t)
        return A(self.shape_, cast_fn(self.snap(), self.k, k, True), k, word=intact(self) if k == self.k else None)

    def sum(self, axis=None, keepdims=False, **kw): return npsum(self, axis, keepdims, **kw)
    def dot(self, o): return dot(self, o)
    def conj(self): return elementwise(lambda a: a.conjugate(), self)
    conjugate = conj

    @property
    def real(self): return self if self.k != "c" else elementwise(lambda a: a.real, self, kind="f")

    @property
    def imag(self): return elementwise(lambda a: a.imag, self, kind="f" if self.k == "c" else self.k)

    def fill(self, v): self.store(v)
    def item(self, *a):
        if not a and all(isinstance(d, int) and d == 1 for d in self.shape_):
            return self.at(*[0] * self.ndim)
        raise Unsupported("item")

    def tolist(self): return [x for x in self]

    def _allany(self, which):
        if self.k != "b":
            raise Unsupported(f".{which}() of numbers")
        res = set()
        vals = generic_values(self)
        for v in vals:
            if not isinstance(v, bool):
                raise Unsupported(f".{which}() of symbolic conditions")
            res.add(v)
        if not res:
            return which == "all"
        if len(res) == 1:
            return res.pop()
        raise Unsupported(f".{which}() of a mixed array")

    def all(self, *a, **k): return self._allany("all")
    def any(self, *a, **k): return self._allany("any")
    flags = Missing("ndarray.flags")

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported(f"ndarray.{a}")

    def __format__(self, s): return "<array>"
    def __repr__(self): return f"<A {self.shape_} {self.k}>"

    @staticmethod
    def _rkv_isinstance(x, k):
        return k is NDArray or k is object


def generic_values(a):
    """the distinct truth values of a boolean array (regions of the index space)"""
    c = core.ctx()
    f = a.snap()
    for d in a.shape_:
        if isinstance(d, int) and d == 0:
            return []

    def go(axis, ix):
        if axis == a.ndim:
            v = f(tuple(ix))
            return [v if isinstance(v, bool) else v]
        out = []
        for _, _, r in sym.explore_local(lambda b: go(axis + 1, ix + [b]), 0, a.shape_[axis]):
            out += r
        return out
    return go(0, [])


def slice_of(s, n):
    """(start, length, step) of a slice over an axis of length n"""
    step = 1 if s.step is None else s.step
    if isinstance(step, SInt) or step not in (1, -1):
        raise Unsupported("slice step")

    def clip(x, lo, hi):
        if isinstance(x, Sc):
            if x.k != "i":
                raise TypeError("slice indices must be integers or None or have an __index__ method")
            x = to_int(x.e)
        if not isinstance(x, (int, SInt)):
            raise TypeError("slice indices must be integers or None or have an __index__ method")
        if cmp(x, "<", 0):
            x = x + n
        if cmp(x, "<", lo):
            return lo
        if cmp(x, ">", hi):
            return hi
        return x
    if step == 1:
        a = 0 if s.start is None else clip(s.start, 0, n)
        b = n if s.stop is None else clip(s.stop, 0, n)
        ln = b - a
    else:
        a = n - 1 if s.start is None else clip(s.start, -1, n - 1)
        b = -1 if s.stop is None else clip(s.stop, -1, n - 1)
        ln = a - b
    if cmp(ln, "<", 0):
        ln = 0
    return a, ln, step


class DType:
    def __init__(self, k): self.k = k

    @property
    def kind(self): return self.k

    def __eq__(self, o):
        try:
            return kind_of(o) == self.k
        except Unsupported:
            return False

    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.k)
    def __format__(self, s): return "<dtype>"


def kind_of(t):
    if isinstance(t, DType):
        return t.k
    t = getattr(t, "_rkv_type", t)
    m = {float: "f", complex: "c", int: "i", bool: "b", "float": "f", "complex": "c", "int": "i", "f8": "f", "c16": "c", "float64": "f",
         "complex128": "c", "int64": "i", "d": "f", "D": "c"}
    try:
        if t in m:
            return m[t]
    except TypeError:
        pass
    raise Unsupported("dtype")


def truth(v):
    return v if isinstance(v, bool) else bool(v)


def cast_fn(g, k, to, explicit=False):
    if k == to or sym.RANK[k] < sym.RANK[to]:
        if k == to:
            return g

        def conv(ix):
            v = g(ix)
            if isinstance(v, (bool, SBool)):
                v = Sc(1 if v else 0)
            return Sc(v.e, to)
        return conv
    if to == "i":
        def f(ix):
            v = g(ix)
            if k == "c":
                raise Unsupported("conversion of complex to int")
            if v.e.is_integer:
                return Sc(v.e, "i")
            tab("meta")["trunc"] = Meta("trunc")
            return Sc(sp.Function("trunc", integer=True)(sym.nf(v.e)), "i")
        return f
    if to == "f" and k == "c":
        return lambda ix: Sc(sp.re(g(ix).e), "f")
    raise Unsupported("cast")


def operand(o):
    if isinstance(o, A):
        return o
    if isinstance(o, (list, tuple)):
        return array(o)
    return scalar(o)


def broadcast(shapes, strict=None):
    """common shape; strict: index of the shape that must be the result (in-place)"""
    n = max(len(s) for s in shapes)
    out = []
    for j in range(n):
        d = 1
        for s in shapes:
            k = j - (n - len(s))
            if k < 0:
                continue
            x = s[k]
            if x is d or (isinstance(x, int) and x == 1):
                continue
            if isinstance(d, int) and d == 1:
                d = x
                continue
            if same(d, x):
                if isinstance(x, int):
                    d = x
                continue
            if isinstance(d, SInt) and cmp(d, "==", 1):
                d = x
            elif isinstance(x, SInt) and cmp(x, "==", 1):
                pass
            else:
                raise ValueError("operands could not be broadcast together")
        out.append(d)
    if strict is not None:
        s = shapes[strict]
        if len(s) < n:
            if not all(isinstance(d, int) and d == 1 for d in out[:n - len(s)]):
                raise ValueError("could not broadcast input array")
            out = out[n - len(s):]
        for d, x in zip(out, s):
            if not same(d, x):
                raise ValueError("could not broadcast input array")
        return tuple(s)
    return tuple(out)


def view_fn(a, shape):
    """element function of a broadcast to shape"""
    if not isinstance(a, A):
        return lambda ix: a
    f = a.snap()
    off = len(shape) - a.ndim
    one = []
    for j, d in enumerate(a.shape_):
        if off + j < 0:
            one.append(True)
            continue
        t = shape[off + j]
        one.append(isinstance(d, int) and d == 1 or (d is not t and isinstance(d, SInt) and not (isinstance(t, SInt) and t.e.eq(d.e)) and not same(d, t)))
    return lambda ix: f(tuple(0 if o else ix[off + j] for j, o in enumerate(one)))


def elementwise(f, *xs, kind=None):
    xs = [operand(x) for x in xs]
    if any(x is None for x in xs):
        raise Unsupported("elementwise operation on this type")
    if not any(isinstance(x, A) for x in xs):
        return f(*xs)
    shape = broadcast([x.shape_ for x in xs if isinstance(x, A)])
    gs = [view_fn(x, shape) for x in xs]
    if kind is None:
        samples = [Sc(sp.Symbol(f"probe{i}", integer=True) if x.k == "i" and isinstance(x, A) else sp.Symbol(f"probe{i}", real=True)
                      if isinstance(x, A) else x.e, x.k) if x.k != "b" else Sc(1, "i") for i, x in enumerate(xs)]
        kind = probe(f, samples)
    num = lambda v: Sc(1 if v else 0, "i") if isinstance(v, (bool, SBool)) else v
    return A(shape, lambda ix: f(*[num(g(ix)) for g in gs]), kind)


def probe(f, samples):
    """result kind of an operation"""
    ks = [s.k for s in samples]
    k = kmax(*ks)
    if f is OPS["div"]:
        return kmax(k, "f")
    if f in FLOATING:
        return kmax(k, "f")
    if f is abs:
        return "f" if k == "c" else k
    return kmax(k, "i")


def elpow(a, b):
    if a.k == "i" and b.k == "i":
        if b.e.is_nonnegative is not True:
            z = sym.to_z3(b.e)
            if z is None:
                raise Unsupported("integer power with an unknown exponent")
            if dec(z < 0):
                raise ValueError("Integers to negative integer powers are not allowed.")
        return Sc(sym.nf(sp.Pow(a.e, b.e)), "i")
    r = sp.Pow(a.e, b.e)
    return Sc(sym.nf(r) if sym.int_valued(b.e) else r, kmax(a.k, b.k))


OPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
       "div": lambda a, b: Sc(a.e / b.e, kmax(a.k, b.k, "f")), "pow": elpow}


def fun(f):
    return lambda a: Sc(f(a.e), kmax(a.k, "f"))


def bessel(name):
    def f(a):
        if a.k == "c":
            raise Unsupported("Bessel function of a complex argument")
        return Sc(sym.special(name)(sp.expand(sym.nf(a.e))), "f")
    return f


UF = {n: fun(getattr(sp, n)) for n in ("exp", "cos", "sin", "tan", "cosh", "sinh", "tanh", "sqrt")}
UF["j0"] = bessel("J0")
UF["j1"] = bessel("J1")
FLOATING = set(UF.values())


def uf1(f, kind=None):
    def g(a, *x, **k):
        if x or (k and set(k) - {"out"} or k.get("out") is not None):
            raise Unsupported("ufunc options")
        return elementwise(f, a, kind=kind)
    return g


def uf2(f):
    def g(a, b, *x, **k):
        out = k.pop("out", None) if k else None
        if x:
            out = x[0]
        if k or len(x) > 1:
            raise Unsupported("ufunc options")
        r = elementwise(f, a, b)
        if out is not None:
            if isinstance(out, tuple):
                out = out[0]
            if sym.RANK[r.k] > sym.RANK[out.k]:
                raise TypeError("Cannot cast ufunc output")
            out.write(view_fn(r, out.shape_))
            return out
        return r
    return g


# ---------------------------------------------------------------- constructors
def shape_of(s):
    if isinstance(s, (int, SInt)):
        return (s,)
    if isinstance(s, Sc):
        if s.k != "i":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return (to_int(s.e),)
    return tuple(x if isinstance(x, (int, SInt)) else shape_of(x)[0] for x in s)


def const(shape, v, k):
    v = scalar(v)
    for d in shape_of(shape):
        if cmp(d, "<", 0):
            raise ValueError("negative dimensions are not allowed")
    return A(shape_of(shape), lambda ix: Sc(v.e, k), k)


def array(x, dtype=None, copy=None, **kw):
    if set(kw) - {"order", "ndmin"} or kw.get("ndmin"):
        raise Unsupported("array options")
    if isinstance(x, A):
        r = x.copy()
    elif isinstance(x, (list, tuple)):
        items = [array(y) if isinstance(y, (list, tuple)) else y for y in x]
        if not items:
            r = A((0,), lambda ix: Sc(0), "f")
        elif all(isinstance(y, A) for y in items):
            r = stack(items)
        else:
            ss = [scalar(y) for y in items]
            if any(s is None for s in ss):
                raise Unsupported("array of these elements")
            k = kmax(*[s.k for s in ss])

            def fn(ix):
                i = ix[0]
                for j, s in enumerate(ss[:-1]):
                    if cmp(i, "==", j):
                        return Sc(s.e, k)
                return Sc(ss[-1].e, k)
            r = A((len(ss),), fn, k)
    elif hasattr(x, "_rkv_array"):
        r = x._rkv_array()
    else:
        s = scalar(x)
        if s is None:
            raise Unsupported(f"array of {type(x).__name__}")
        r = A((), lambda ix: s, s.k)
    return r if dtype is None else r.astype(dtype)


def asarray(x, dtype=None, **kw):
    if isinstance(x, A):
        return x if dtype is None or kind_of(dtype) == x.k else x.astype(dtype)
    return array(x, dtype)


def arange(*a, dtype=None, **kw):
    if kw:
        raise Unsupported("arange options")
    if len(a) == 1:
        a = (0, a[0])
    lo, hi = a[0], a[1]
    st = a[2] if len(a) > 2 else 1
    ints = all(isinstance(x, (int, SInt)) or (isinstance(x, Sc) and x.k == "i") for x in (lo, hi, st))
    L, H, S = scalar(lo).e, scalar(hi).e, scalar(st)
    if ints:
        if S.e not in (1, -1):
            raise Unsupported("arange step")
        n = to_int((H - L) * S.e)
        if cmp(n, "<", 0):
            n = 0
        k = "i"
    else:
        q = sp.simplify((H - L) / S.e)
        k = "f"
        try:
            m = sym.to_z3int(sp.expand(q))
            if m is None:
                raise Unsupported
        except Unsupported:
            raise Unsupported("arange over reals") from None
        n = mkint(m)
        if not S.e.is_Integer and core.ctx().free(("arange rounding", str(q))):
            n = n + 1          # (stop - start)/step is rounded: one element more is possible
        if cmp(n, "<", 0):
            n = 0
    if dtype is not None:
        k2 = kind_of(dtype)
        if sym.RANK[k2] < sym.RANK[k]:
            raise Unsupported("arange dtype")
        k = k2
    return A((n,), lambda ix: Sc(L + S.e * sy(ix[0]), k), k)


def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, **kw):
    if kw or dtype is not None or isinstance(a, A) or isinstance(b, A):
        raise Unsupported("linspace options")
    if isinstance(num, Sc):
        if num.k != "i":
            raise TypeError("'float' object cannot be interpreted as an integer")
        num = to_int(num.e)
    if cmp(num, "<", 0):
        raise ValueError("Number of samples must be non-negative.")
    d = num - 1 if endpoint else num
    L, H = scalar(a), scalar(b)
    k = kmax(L.k, H.k, "f")
    if cmp(d, "<=", 0):
        return A((num,), lambda ix: Sc(L.e, k), k)
    step = (H.e - L.e) / sy(d)
    r = A((num,), lambda ix: Sc(L.e + step * sy(ix[0]), k), k)
    return (r, Sc(step, k)) if retstep else r


def eye(n, m=None, k=0, dtype=None, **kw):
    if kw:
        raise Unsupported("eye options")
    kd = "f" if dtype is None else kind_of(dtype)
    m = n if m is None else m
    return A(shape_of((n, m)), lambda ix: Sc(1 if same(ix[0] + k, ix[1]) else 0, kd), kd)


def diag(v, k=0):
    if isinstance(v, (list, tuple)):
        v = array(v)
    if not (isinstance(k, int) and k == 0):
        raise Unsupported("off-diagonal")
    f = v.snap()
    if v.ndim == 1:
        n = v.shape_[0]
        return A((n, n), lambda ix: f((ix[0],)) if same(ix[0], ix[1]) else Sc(0, v.k), v.k)
    if v.ndim == 2:
        if not same(*v.shape_):
            raise Unsupported("diagonal of a rectangular matrix")
        return A((v.shape_[0],), lambda ix: f((ix[0], ix[0])), v.k)
    raise ValueError("Input must be 1- or 2-d.")


def fill_diagonal(a, val, wrap=False):
    if a.ndim != 2:
        raise Unsupported("fill_diagonal")
    old = a.snap()
    v = operand(val)
    g = cast_fn((lambda ix: v.at(ix[0])) if isinstance(v, A) and v.ndim == 1 else lambda ix: v, v.k, a.k)
    a.write(lambda ix: g(ix) if same(ix[0], ix[1]) else old(ix))


def outer(a, b):
    a, b = asarray(a).ravel(), asarray(b).ravel()
    return elementwise(OPS["mul"], a.reshape((a.shape_[0], 1)), b.reshape((1, b.shape_[0])))


def tile(a, reps):
    a = asarray(a)
    if isinstance(reps, (int, SInt)):
        reps = (reps,)
    reps = tuple(reps)
    sh = (1,) * (len(reps) - a.ndim) + a.shape_
    reps = (1,) * (len(sh) - len(reps)) + reps
    out = []
    keep = []
    for d, r in zip(sh, reps):
        if isinstance(r, int) and r == 1:
            out.append(d)
            keep.append(True)
        elif isinstance(d, int) and d == 1:
            out.append(r)
            keep.append(False)
        else:
            raise Unsupported("tile along a long axis")
    f = a.reshape(sh).snap()
    return A(out, lambda ix: f(tuple(i if q else 0 for i, q in zip(ix, keep))), a.k)


def concatenate(xs, axis=0, **kw):
    if kw:
        raise Unsupported("concatenate options")
    xs = [asarray(x) for x in xs]
    if not xs:
        raise ValueError("need at least one array to concatenate")
    n = xs[0].ndim
    if n == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    if any(x.ndim != n for x in xs):
        raise ValueError("all the input array dimensions must match")
    if axis is None:
        raise Unsupported("concatenate with axis None")
    if not isinstance(axis, int):
        raise Unsupported("axis")
    if axis < 0:
        axis += n
    if not 0 <= axis < n:
        raise ValueError("axis out of bounds")      # numpy.exceptions.AxisError is a ValueError
    for x in xs[1:]:
        for j in range(n):
            if j != axis and not same(x.shape_[j], xs[0].shape_[j]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    fs = [x.snap() for x in xs]
    k = kmax(*[x.k for x in xs])
    lens = [x.shape_[axis] for x in xs]
    tot = 0
    for q in lens:
        tot = q + tot
    shape = list(xs[0].shape_)
    shape[axis] = tot

    def fn(ix):
        i = ix[axis]
        for f, ln in zip(fs[:-1], lens[:-1]):
            if cmp(i, "<", ln):
                return up(f(ix[:axis] + (i,) + ix[axis + 1:]), k)
            i = i - ln
        return up(fs[-1](ix[:axis] + (i,) + ix[axis + 1:]), k)
    return A(shape, fn, k)


def up(v, k):
    return v if isinstance(v, (bool, SBool)) else Sc(v.e, k)


def at1(x):
    x = asarray(x)
    return x.reshape((1,)) if x.ndim == 0 else x


def at2(x):
    x = at1(x)
    return x.reshape((1, x.shape_[0])) if x.ndim == 1 else x


def hstack(xs, **k):
    xs = [at1(x) for x in xs]
    return concatenate(xs, 0 if xs and xs[0].ndim == 1 else 1)


def vstack(xs, **k):
    return concatenate([at2(x) for x in xs], 0)


def stack(xs, axis=0):
    xs = [asarray(x) for x in xs]
    if axis == 0:
        return concatenate([x.reshape((1,) + x.shape_) for x in xs], 0)
    if axis in (1, -1) and xs[0].ndim == 1:
        return concatenate([x.reshape(x.shape_ + (1,)) for x in xs], 1)
    raise Unsupported("stack axis")


def flip(a, axis=None):
    a = asarray(a)
    if axis is None:
        axes = range(a.ndim)
    else:
        axes = [axis] if isinstance(axis, int) else list(axis)
        if any(not -a.ndim <= x < a.ndim for x in axes):
            raise ValueError("axis out of bounds")
        axes = [x % a.ndim for x in axes]
    return a.view(tuple(slice(None, None, -1) if j in axes else slice(None) for j in range(a.ndim)))


def flipud(a):
    a = asarray(a)
    if a.ndim < 1:
        raise ValueError("Input must be >= 1-d.")
    return a.view(slice(None, None, -1))


def fliplr(a):
    a = asarray(a)
    if a.ndim < 2:
        raise ValueError("Input must be >= 2-d.")
    return a.view((slice(None), slice(None, None, -1)))


class RClass:
    def __getitem__(self, i):
        if not isinstance(i, tuple):
            i = (i,)
        xs = []
        for x in i:
            if isinstance(x, slice):
                if x.stop is None or isinstance(x.step, complex):
                    raise Unsupported("r_ slice")
                xs.append(arange(x.start or 0, x.stop, x.step if x.step is not None else 1))
            elif isinstance(x, str):
                raise Unsupported("r_ string")
            else:
                xs.append(at1(x))
        return concatenate(xs)


def where(*a):
    if len(a) != 3:
        raise Unsupported("where with one argument")
    k = kmax(*[operand(x).k for x in a[1:]])
    cond = a[0]
    if not isinstance(cond, A):
        return a[1] if cond else a[2]
    xs = [operand(x) for x in a[1:]]
    shape = broadcast([x.shape_ for x in [cond] + xs if isinstance(x, A)])
    g, f1, f2 = view_fn(cond, shape), view_fn(xs[0], shape), view_fn(xs[1], shape)
    return A(shape, lambda ix: up(f1(ix), k) if truth(g(ix)) else up(f2(ix), k), k)


# ---------------------------------------------------------------- sums and products
def npsum(a, axis=None, keepdims=False, **kw):
    if kw and not all(v is None for v in kw.values()):
        raise Unsupported("sum options")
    a = asarray(a)
    if isinstance(axis, tuple):
        if len(axis) != 1:
            raise Unsupported("sum over several axes")
        axis = axis[0]
    if axis is None:
        if a.ndim == 0:
            return a.at()
        if a.ndim != 1:
            raise Unsupported("sum over all axes")
        axis = 0
    if axis < 0:
        axis += a.ndim
    if not 0 <= axis < a.ndim:
        raise ValueError("axis out of bounds")
    f = a.snap()
    n = a.shape_[axis]
    k = kmax(a.k, "i")
    num = (lambda v: Sc(1 if v else 0, "i")) if a.k == "b" else lambda v: v
    rest = a.shape_[:axis] + a.shape_[axis + 1:]

    def el(ix):
        return total(lambda j: num(f(ix[:axis] + (j,) + ix[axis:])), n, k)
    if not rest:
        r = el(())
        return A((1,), lambda ix: r, k) if keepdims else r
    r = A(rest, el, k)
    if keepdims:
        return r.reshape(a.shape_[:axis] + (1,) + a.shape_[axis + 1:])
    return r


def total(g, n, k):
    """sum of g(j) for 0 <= j < n"""
    if isinstance(n, int) and n <= 24:
        r = Sc(0, k)
        for j in range(n):
            r = r + g(j)
        return Sc(r.e, k)
    return Sc(sym.make_sum(lambda j: g(j).e, 0, n, k), k)


def wordval(word):
    """opaque matrix power: its elements as symbols"""
    name = "*".join(f"{m}^{p}" for m, p in word)
    t = tab("words")
    t[name] = word

    def value(inst):
        import numpy as np
        r = None
        for m, p in word:
            f, sh = tab("mats")[m]
            d = [inst.int(x) for x in sh]
            a = np.array([[inst.ev(f(i, j)) for j in range(d[1])] for i in range(d[0])], dtype=complex)
            q = inst.ev(p)
            a = np.linalg.matrix_power(a, int(q))
            r = a if r is None else r @ a
        return r
    k = kmax(*[tab("matk")[m] for m, _ in word])
    tab("meta")[name] = Meta("word", value=value)
    return sp.Function(name, real=True) if k != "c" else sp.Function(name, complex=True), k


def simplify_word(w):
    out = []
    for m, p in w:
        p = sp.expand(p)
        if out and out[-1][0] == m:
            out[-1] = (m, sp.expand(out[-1][1] + p))
        else:
            out.append((m, p))
    return tuple((m, p) for m, p in out if p != 0)


def word_array(w, shape):
    """array of a product of opaque matrices"""
    w = simplify_word(w)
    if not w:
        r = eye(shape[0])
        return r
    if len(w) == 1 and w[0][1] == 1:
        f, _ = tab("mats")[w[0][0]]
        k = tab("matk")[w[0][0]]
        return A(shape, lambda ix: Sc(f(sy(ix[0]), sy(ix[1])), k), k, word=w)
    f, k = wordval(w)
    return A(shape, lambda ix: Sc(f(sy(ix[0]), sy(ix[1])), k), k, word=w)


def matrix(name, shape, k="f"):
    """opaque matrix"""
    f = opaque(name, k)
    tab("mats")[name] = (f, shape)
    tab("matk")[name] = k
    a = A(shape, lambda ix: Sc(f(sy(ix[0]), sy(ix[1])), k), k, word=((name, sp.Integer(1)),))
    a.buf.owner = name
    return a


def intact(a):
    """the word of an opaque matrix product if the array still is one"""
    w = a.word
    return w if w is not None and getattr(a.buf, "word", 0) == 0 else None


def matmul(a, b):
    if not isinstance(a, A) or not isinstance(b, A):
        if a is None or b is None or not (isinstance(a, (A, list, tuple)) and isinstance(b, (A, list, tuple))):
            raise TypeError("matmul: Input operand does not have enough dimensions")
        a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported("matmul of stacked matrices")
    m = a.shape_[-1]
    n = b.shape_[0] if b.ndim == 1 else b.shape_[-2]
    if not same(m, n):
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    f, g = a.snap(), b.snap()
    k = kmax(a.k, b.k, "i")
    wa, wb = intact(a), intact(b)
    if wa is not None and wb is not None and a.ndim == 2 and b.ndim == 2:
        return word_array(wa + wb, (a.shape_[0], b.shape_[1]))
    if wa is not None and getattr(b, "image", None) is not None and getattr(b.buf, "word", 0) == 0:
        w, v = b.image
        return image(simplify_word(wa + w), v, (a.shape_[0],) + b.shape_[1:], a)
    if wa is not None and a.ndim == 2:
        return image(wa, b, (a.shape_[0],) + b.shape_[1:], a)
    if a.ndim == 1 and b.ndim == 1:
        return total(lambda j: f((j,)) * g((j,)), m, k)
    if a.ndim == 2 and b.ndim == 1:
        return A((a.shape_[0],), lambda ix: total(lambda j: f((ix[0], j)) * g((j,)), m, k), k)
    if a.ndim == 1:
        return A((b.shape_[1],), lambda ix: total(lambda j: f((j,)) * g((j, ix[0])), m, k), k)
    return A((a.shape_[0], b.shape_[1]), lambda ix: total(lambda j: f((ix[0], j)) * g((j, ix[1])), m, k), k)


def image(w, v, shape, mat=None):
    """(product of opaque matrices) @ v"""
    v0 = v.copy()
    if not w:
        return v0
    W = word_array(w, (shape[0], v.shape_[0]))
    f, g = W.snap(), v0.snap()
    m = v.shape_[0]
    k = kmax(W.k, v.k)
    if v.ndim == 1:
        r = A(shape, lambda ix: total(lambda j: f((ix[0], j)) * g((j,)), m, k), k)
    else:
        r = A(shape, lambda ix: total(lambda j: f((ix[0], j)) * g((j, ix[1])), m, k), k)
    r.image = (w, v0)
    return r


def dot(a, b, out=None):
    if out is not None:
        raise Unsupported("dot with out")
    a, b = operand(a), operand(b)
    if not isinstance(a, A) or not isinstance(b, A) or a.ndim == 0 or b.ndim == 0:
        return elementwise(OPS["mul"], a, b)
    return matmul(a, b)


def matrix_power(a, n):
    if isinstance(n, Sc) and n.k == "i":
        n = to_int(n.e)
    if not isinstance(n, (int, SInt)):
        raise TypeError("exponent must be an integer")
    if a.ndim != 2 or not same(*a.shape_):
        import numpy as np
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    w = intact(a)
    if cmp(n, "<", 0) and not (w is not None and len(w) == 1):
        raise Unsupported("negative power of a computed matrix")
    if w is not None and len(w) == 1:     # a negative power of an invertible matrix is its inverse's power
        return word_array(((w[0][0], w[0][1] * sy(n)),), a.shape_)
    if isinstance(n, int):
        if n == 0:
            return eye(a.shape_[0])
        r = a.copy()
        for _ in range(n - 1):
            r = matmul(r, a)
        return r
    raise Unsupported("symbolic power of a computed matrix")


# ---------------------------------------------------------------- discrete Fourier transforms
def transform(t, a, n=None, axis=-1, norm=None, **kw):
    a = asarray(a)
    if kw or norm not in (None, "backward"):
        raise Unsupported("transform options")
    if a.ndim == 0:
        raise ValueError("tuple index out of range")
    if a.ndim > 2 or not (isinstance(axis, int) and axis in (-1, a.ndim - 1) or a.ndim == 1 and axis == 0):
        raise Unsupported("transform of a multidimensional array")
    m = a.shape_[-1]
    if isinstance(n, Sc):
        n = to_int(n.e) if n.k == "i" else None
    if t == "rfft" and a.k == "c":
        raise Unsupported("rfft of complex data")
    if t == "irfft":
        N = 2 * (m - 1) if n is None else n
        if cmp(N, "<", 1):
            raise ValueError("Invalid number of data points specified")
        full = same(m, N // 2 + 1)
        out = N
    else:
        N = m if n is None else n
        if cmp(N, "<", 1):
            raise ValueError("Invalid number of FFT data points")
        full = same(N, m)
        out = N // 2 + 1 if t == "rfft" else N
    k = {"rfft": "c", "irfft": "f", "fft": "c", "ifft": "c"}[t]
    if not full:
        return A(a.shape_[:-1] + (out,), lambda ix: unsup("a truncated or padded transform"), k)
    f = a.snap()
    if a.ndim == 1:
        sp_ = Lin(t, lambda q: f((q,)), m, N)
        r = A((out,), lambda ix: Sc(sp_.at(ix[0]), k), k)
        r.coef = sp_
        return r
    return A(a.shape_[:-1] + (out,), lambda ix: Sc(Lin(t, lambda q: f((ix[0], q)), m, N).at(ix[1]), k), k)


def unsup(why):
    raise Unsupported(why)


INV = {"irfft": "rfft", "ifft": "fft", "fft": "ifft", "rfft": "irfft"}


class Lin:
    """a transform as a linear function of its (canonical) operand"""

    def __init__(self, t, f, ln, n):
        self.t, self.f, self.ln, self.n = t, f, ln, n
        self.terms = None

    def canon(self):
        """[(constant, function symbol or callable)]"""
        c = core.ctx()
        b, bs = sym.bound()
        saved = c.local, c.localfacts
        c.push()
        sv = c._saved, c._lz
        memo = dict(tab("sy"))
        try:
            c.local = "nofork"
            c.solver.add(b.e >= 0, b.e < iz(self.ln))
            g = sym.poly(sym.nf(self.f(b).e))
            if any(s in tab("sums") for s in g.free_symbols):
                raise Unsupported("sum under a transform")
        except Unsupported:
            g = None
        finally:
            c._saved, c._lz = sv
            c.pop()
            c.local, c.localfacts = saved
            c.data["sy"] = memo
        if g is None:
            return [(sp.Integer(1), self.register(None))]
        parts = {}
        for term in sp.Add.make_args(g):
            if term == 0:
                continue
            co, x = term.as_independent(bs)
            if x == 1:
                co, x = sp.Integer(1), term
                if bs not in term.free_symbols:
                    co, x = term, sp.Integer(1)
            if self.t in ("rfft", "irfft") and co.is_real is not True:
                q = sp.expand(co / sp.I)
                if q.is_real:
                    co, x = q, sp.I * x
                else:
                    num, rest = co.as_coeff_Mul()
                    co, x = num, rest * x
            parts.setdefault(x, []).append(co)
        out = []
        for x, cs in parts.items():
            co = sp.Add(*cs)
            if co == 0:
                continue
            fn = x.func.__name__ if x.is_Function else None
            m = tab("meta").get(fn)
            if m is not None and m.kind == "transform" and m.t == INV[self.t] and x.args == (bs,) and m.g is not None \
                    and (self.t in ("ifft", "fft") or self.t == "irfft") and same(m.n, self.n):
                src, g0 = m, m.g
                out.append((co, lambda k, g0=g0: g0.subs(bs, k)))
                continue
            out.append((co, self.register(x)))
        return out

    def register(self, x):
        reg = tab("transforms")
        key = (self.t, x, sy(self.n)) if x is not None else ("closure", next(sym.COUNT))
        if key not in reg:
            name = f"{self.t.upper()}#{len(reg)}"
            if x is not None:
                f = None
            else:
                f = lambda k: self.f(k).e
            tab("meta")[name] = Meta("transform", t=self.t, g=x, f=f, ln=self.ln, n=self.n)
            reg[key] = sp.Function(name, real=True) if self.t == "irfft" else sp.Function(name, complex=True)
        return reg[key]

    def at(self, i):
        if self.terms is None:
            self.terms = self.canon()
        k = sy(i)
        return sp.Add(*[co * fn(k) for co, fn in self.terms])


def rfftfreq(n, d=None):
    n, d = intarg(n), Sc(1) if d is None else scalar(d)
    return A((n // 2 + 1,), lambda ix: Sc(sy(ix[0]) / (sy(n) * d.e)), "f")


def fftfreq(n, d=None):
    n, d = intarg(n), Sc(1) if d is None else scalar(d)
    h = (n + 1) // 2
    return A((n,), lambda ix: Sc((sy(ix[0]) if cmp(ix[0], "<", h) else sy(ix[0] - n)) / (sy(n) * d.e)), "f")


def intarg(n):
    if isinstance(n, Sc):
        if n.k != "i":
            raise ValueError("n should be an integer")
        n = to_int(n.e)
    if not isinstance(n, (int, SInt)):
        raise ValueError("n should be an integer")
    return n


def chebpts2(n):
    n = intarg(n)
    if cmp(n, "<", 2):
        raise ValueError("npts must be >= 2")
    return A((n,), lambda ix: Sc(-sp.cos(sp.pi * sy(ix[0]) / sy(n - 1))), "f")


def jn_zeros(order, n):
    o = intarg(order)
    if not isinstance(o, int) or o < 0:
        raise Unsupported("order of Bessel zeros")
    if isinstance(n, Sc):
        if n.k != "i":
            raise ValueError("Arguments must be integers.")
        n = to_int(n.e)
    if not isinstance(n, (int, SInt)) or cmp(n, "<=", 0):
        raise ValueError("Arguments must be scalars with positive integer values.")
    Z = sym.special(f"Z{o}")
    return A((n,), lambda ix: Sc(Z(sy(ix[0]))), "f")


def jv(order, x):
    o = scalar(order)
    if o.e == 0:
        return elementwise(UF["j0"], x)
    if o.e == 1:
        return elementwise(UF["j1"], x)
    raise Unsupported("Bessel function of this order")


def garbage(shape, dtype=None, **kw):
    k = "f" if dtype is None else kind_of(dtype)
    g = opaque(f"garbage{next(sym.COUNT)}", k)
    return A(shape_of(shape), lambda ix: Sc(g(*[sy(i) for i in ix]) if ix else 0, k), k)


def iscomplexobj(x):
    x = operand(x)
    return x.k == "c"


def expand_dims(a, axis):
    a = asarray(a)
    n = a.ndim + 1
    axis %= n
    idx = [slice(None)] * a.ndim
    idx.insert(axis, None)
    return a.view(tuple(idx))


def numpy_shim():
    op2 = {"add": "add", "subtract": "sub", "multiply": "mul", "divide": "div", "true_divide": "div", "power": "pow", "float_power": "pow"}
    fft = Shim("numpy.fft", rfftfreq=rfftfreq, fftfreq=fftfreq,
               **{t: (lambda a, n=None, axis=-1, norm=None, t=t, **k: transform(t, a, n, axis, norm, **k)) for t in INV})
    linalg = Shim("numpy.linalg", matrix_power=matrix_power, LinAlgError=__import__("numpy").linalg.LinAlgError, multi_dot=lambda xs: multi_dot(xs))
    ft, it, ct = typelike(float, lambda x=0: scalar(x)), typelike(int, lambda x=0: to_int(scalar(x).e)), typelike(complex, lambda x=0: Sc(scalar(x).e, "c"))
    np = Shim(
        "numpy", pi=Sc(sp.pi), e=Sc(sp.E), newaxis=None, ndarray=NDArray, nan=Sc(sp.nan), r_=RClass(),
        array=array, asarray=asarray, ascontiguousarray=asarray, asanyarray=asarray, copy=lambda a: array(a), arange=arange, linspace=linspace, eye=eye,
        identity=lambda n, dtype=None: eye(n, dtype=dtype), diag=diag, diagonal=diag, fill_diagonal=fill_diagonal, outer=outer, tile=tile,
        concatenate=concatenate, hstack=hstack, vstack=vstack, stack=stack, column_stack=lambda xs: concatenate([x.reshape((x.shape_[0], 1)) if x.ndim == 1 else x for x in xs], 1),
        append=lambda a, b, axis=None: concatenate([at1(a), at1(b)], 0 if axis is None and at1(a).ndim == 1 else axis),
        flip=flip, flipud=flipud, fliplr=fliplr, where=where, sum=npsum, dot=dot, matmul=matmul, vdot=Missing("numpy.vdot"),
        zeros=lambda s, dtype=None, **k: const(s, 0, "f" if dtype is None else kind_of(dtype)),
        ones=lambda s, dtype=None, **k: const(s, 1, "f" if dtype is None else kind_of(dtype)),
        full=lambda s, v, dtype=None, **k: const(s, v, kmax(scalar(v).k, "i") if dtype is None else kind_of(dtype)),
        zeros_like=lambda a, dtype=None, **k: const(a.shape_, 0, a.k if dtype is None else kind_of(dtype)),
        ones_like=lambda a, dtype=None, **k: const(a.shape_, 1, a.k if dtype is None else kind_of(dtype)),
        full_like=lambda a, v, dtype=None, **k: A(a.shape_, cast_fn(lambda ix: scalar(v), scalar(v).k, a.k), a.k) if dtype is None else const(a.shape_, v, kind_of(dtype)),
        empty=garbage, empty_like=lambda a, dtype=None, **k: garbage(a.shape_, DType(a.k) if dtype is None else dtype),
        negative=uf1(lambda a: -a), square=uf1(lambda a: a * a), abs=uf1(abs), absolute=uf1(abs), fabs=uf1(abs), conj=uf1(lambda a: a.conjugate()),
        conjugate=uf1(lambda a: a.conjugate()), real=lambda a: operand(a).real, imag=lambda a: operand(a).imag, reciprocal=uf1(lambda a: Sc(1 / a.e, kmax(a.k, "f"))),
        iscomplexobj=iscomplexobj, isrealobj=lambda x: not iscomplexobj(x), shape=lambda a: asarray(a).shape_, ndim=lambda a: asarray(a).ndim,
        size=lambda a: asarray(a).size, reshape=lambda a, s, **k: asarray(a).reshape(s), ravel=lambda a: asarray(a).ravel(), transpose=lambda a, *x: asarray(a).transpose(*x),
        atleast_1d=at1, atleast_2d=at2, expand_dims=expand_dims, squeeze=lambda a, *x: asarray(a).squeeze(*x), float64=ft, complex128=ct, int64=it, float_=ft,
        isfinite=lambda x: fin(x, True), isnan=lambda x: fin(x, False), isinf=lambda x: elementwise(lambda a: False, x, kind="b"), issubdtype=issubdtype, floating=NPF, complexfloating=NPC, integer=NPI, inexact=NPIn, number=NPN,
        broadcast_to=lambda a, s: A(shape_of(s), view_fn(asarray(a), shape_of(s)), asarray(a).k),
        polynomial=Shim("numpy.polynomial", chebyshev=Shim("numpy.polynomial.chebyshev", chebpts2=chebpts2)),
        isclose=isclose, allclose=isclose, fft=fft, linalg=linalg, all=lambda a, **k: asarray(a).all(), any=lambda a, **k: asarray(a).any(), result_type=lambda *xs: DType(kmax(*[operand(x).k if not isinstance(x, DType) and operand(x) is not None else kind_of(x) for x in xs])),
        **{n: uf2(OPS[o]) for n, o in op2.items()}, **{n: uf1(f) for n, f in UF.items() if n[0] != "j"})
    return np


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    """numpy.isclose of numbers"""
    a, b = operand(a), operand(b)
    if not isinstance(a, Sc) or not isinstance(b, Sc):
        raise Unsupported("isclose of arrays")
    if a.e is sp.nan or b.e is sp.nan:
        return bool(equal_nan) and a.e is b.e
    return bool(abs(a - b) <= scalar(atol) + scalar(rtol) * abs(b))


def mathclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    a, b = scalar(a), scalar(b)
    if a.e is sp.nan or b.e is sp.nan:
        return False
    d = abs(a - b)
    return bool(d <= scalar(abs_tol)) or bool(d <= scalar(rel_tol) * abs(a)) or bool(d <= scalar(rel_tol) * abs(b))


def multi_dot(xs):
    r = xs[0]
    for x in xs[1:]:
        r = dot(r, x)
    return r


def fin(x, want):
    x = operand(x)
    if isinstance(x, Sc):
        return (x.e is not sp.nan) == want
    return elementwise(lambda a: (a.e is not sp.nan) == want, x, kind="b")


class NPF: pass
class NPC: pass
class NPI: pass
class NPIn: pass
class NPN: pass


def issubdtype(d, t):
    k = d.k if isinstance(d, DType) else kind_of(d)
    if t in (NPF, NPC, NPI, NPIn, NPN):
        return {NPF: k == "f", NPC: k == "c", NPI: k == "i", NPIn: k in "fc", NPN: k != "b"}[t]
    return kind_of(t) == k


def special_shim():
    return Shim("scipy.special", jn_zeros=jn_zeros, j0=uf1(UF["j0"]), j1=uf1(UF["j1"]), jv=jv, jn=jv)
