"""Arrays of the scheme domain: one generic component of state vectors, coefficient vectors, contour grids, and
matrices as functions of the operator L; with ownership of every buffer for frame obligations.

val of an Arr: {basis: El} for elementwise arrays (basis '1' is the constant vector, others are state vectors),
an El f for an (n, n) array standing for the matrix f(L) from coordinates space[0] to space[1],
None for a selection that does not contain the generic component, a bool for masks.
"""
import z3
from fractions import Fraction as Fr
from . import core, ring
from .core import Unsupported, SInt, mkint
from .ring import El, sym
from .runtime import Runtime, Shim, Missing, NativeLoop, SRange, TList, logging_shim, typelike

ONE = "1"
NDIM = "n"
_DIMN = z3.Int("dim_n")


def dim_n():
    c = core.ctx()
    if "dim_n" not in c.data:
        c.data["dim_n"] = True
        c.assume(_DIMN >= 1)
    return SInt(_DIMN)


class Buf:
    count = 0

    def __init__(self, val, owner="solver"):
        self.val = val
        self.owner = owner
        self.frame = []        # reasons why this buffer must not be written
        Buf.count += 1
        self.serial = Buf.count

    def protect(self, why):
        if why not in self.frame:
            self.frame.append(why)


def vadd(a, b, f=1):
    r = dict(a)
    for k, v in b.items():
        x = r[k] + v * f if k in r else v * f
        if x.is_zero() and not x.sing:
            r.pop(k, None)
        else:
            r[k] = x
    return r


def vscale(a, e):
    r = {}
    for k, v in a.items():
        x = v * e
        if not x.is_zero() or x.sing:
            r[k] = x
    return r


def vsame(a, b):
    for k in set(a) | set(b):
        if not a.get(k, El()).same(b.get(k, El())):
            return False
    return True


# ---- interned arguments of the nonlinear function (shared by all runs of the process)
_NARGS = []
_NKEYS = {}


def intern(val):
    key = frozenset((k, frozenset(v.n.items()), frozenset(v.d.items())) for k, v in val.items())
    i = _NKEYS.get(key)
    if i is not None:
        return i
    for i, v in enumerate(_NARGS):
        if vsame(v, val):
            _NKEYS[key] = i
            return i
    _NARGS.append(dict(val))
    _NKEYS[key] = len(_NARGS) - 1
    return len(_NARGS) - 1


def narg(i):
    return _NARGS[i]


class DT:
    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        k = dkind(o)
        if self.k == "?":
            if k in ("c", "f"):
                isc = core.ctx().free(("dtype", "complex"))
                return (k == "c") == isc
            return False
        return self.k == k

    def __ne__(self, o): return not self.__eq__(o)
    def __hash__(self): return hash(self.k)

    @property
    def kind(self):
        if self.k == "?":
            return "c" if core.ctx().free(("dtype", "complex")) else "f"
        return self.k

    @property
    def char(self):
        raise Unsupported("dtype.char")

    def __format__(self, s): return self.k


def dkind(o):
    if isinstance(o, DT):
        return o.k
    t = getattr(o, "_rkv_type", o)
    if t is complex or o in ("complex", "complex128", "c16"):
        return "c"
    if t is float or o in ("float", "float64", "f8"):
        return "f"
    if t is int:
        return "i"
    if t is bool:
        return "b"
    raise Unsupported(f"dtype {o!r}")


def dtjoin(*ks):
    if "c" in ks:
        return "c"
    if "?" in ks:
        return "?"
    return "f"


def isnum(x):
    return isinstance(x, (int, float, complex, Fr, El)) and not isinstance(x, bool)


class Arr:
    __array_priority__ = 100

    def __init__(self, dims, val, space=None, dtype="c", owner="solver", buf=None):
        self.dims = tuple(dims)
        self.space = space
        self.k = dtype
        self.buf = buf if buf is not None else Buf(val, owner)

    # ---- inspection
    @property
    def val(self):
        return self.buf.val

    @property
    def isop(self):
        return self.dims == (NDIM, NDIM)

    @property
    def present(self):
        return self.buf.val is not None

    @property
    def dtype(self):
        return DT(self.k)

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def shape(self):
        return tuple(dimval(d) for d in self.dims)

    @property
    def size(self):
        if len(self.dims) == 1:
            return dimval(self.dims[0])
        raise Unsupported("size of a 2-D array")

    def _rkv_len(self):
        return dimval(self.dims[0])

    @property
    def T(self):
        if self.isop:
            raise Unsupported("transpose of an operator")
        return Arr(self.dims[::-1], None, self.space, self.k, buf=self.buf)

    def transpose(self, *a):
        return self.T

    @property
    def real(self):
        if self.k == "f":
            return self
        raise Unsupported("real part of a complex array")

    @property
    def imag(self):
        raise Unsupported("imaginary part of a complex array")

    def conj(self):
        raise Unsupported("conjugate of an array")

    def __len__(self):
        raise Unsupported("len of an array")

    def __iter__(self):
        raise Unsupported("iteration over an array")

    def __bool__(self):
        raise Unsupported("truth value of an array")

    def __format__(self, s): return "<array>"
    def __repr__(self): return f"<Arr {self.dims} {self.space} {self.buf.val}>"

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported(f"no contract model for ndarray.{a}")

    # ---- copies and views
    def copy(self, order=None):
        v = self.val
        return Arr(self.dims, dict(v) if isinstance(v, dict) else v, self.space, self.k)
    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def flatten(self):
        return self.copy()

    def ravel(self):
        return self[:]

    def view(self, *a):
        if a:
            raise Unsupported("view with a dtype")
        return self[:]

    def astype(self, dt, copy=True, **k):
        d = dkind(dt)
        if d not in ("c", "f"):
            raise Unsupported("astype to a non-floating type")
        cur = self.k
        if cur == "?":
            cur = "c" if core.ctx().free(("dtype", "complex")) else "f"
        if d == "f" and cur == "c":
            raise Unsupported("complex array cast to real")
        if d == cur and copy is False:
            return self
        r = self.copy()
        r.k = d
        return r

    def reshape(self, *a):
        a = a[0] if len(a) == 1 and isinstance(a[0], tuple) else a
        if len(self.dims) == 1:
            if a == (-1, 1):
                return Arr((self.dims[0], 1), None, self.space, self.k, buf=self.buf)
            if a == (1, -1):
                return Arr((1, self.dims[0]), None, self.space, self.k, buf=self.buf)
            if a in ((-1,),):
                return self[:]
        raise Unsupported("reshape")

    # ---- reductions
    def sum(self, axis=None, **k):
        return np_sum(self, axis)

    def mean(self, axis=None, **k):
        return np_mean(self, axis)

    def any(self, *a):
        return np_any(self)

    def all(self, *a):
        return np_all(self)

    def dot(self, o, out=None):
        return store(matmul(self, o), out)
    def __matmul__(self, o): return matmul(self, o)

    def __rmatmul__(self, o): return matmul(o, self)

    def fill(self, x):
        self[:] = x

    def tolist(self):
        raise Unsupported("tolist")

    # ---- indexing
    def __getitem__(self, i):
        if isinstance(i, Mask):
            return select(self, i)
        if i is Ellipsis or (isinstance(i, slice) and i == slice(None)):
            return Arr(self.dims, None, self.space, self.k, buf=self.buf)
        if isinstance(i, tuple):
            dims = list(self.dims)
            out = []
            if any(isinstance(x, Mask) for x in i):
                raise Unsupported("mask in a tuple index")
            for x in i:
                if x is None:
                    out.append(1)
                elif isinstance(x, slice) and x == slice(None):
                    out.append(dims.pop(0))
                elif x is Ellipsis:
                    k = len([y for y in i[i.index(x) + 1:] if y is not None])
                    while len(dims) > k:
                        out.append(dims.pop(0))
                else:
                    raise Unsupported("element or slice of an array")
            return Arr(tuple(out + dims), None, self.space, self.k, buf=self.buf)
        if i is None:
            return Arr((1,) + self.dims, None, self.space, self.k, buf=self.buf)
        if isinstance(i, El) and len(self.dims) == 1 and isinstance(self.dims[0], tuple) and self.dims[0][0] == "M" and i.same(sym("j")):
            return self.val.get(ONE, El())
        raise Unsupported("element or slice of an array")

    def __setitem__(self, i, x):
        if isinstance(i, Mask):
            if i.dims != self.dims:
                raise Unsupported("mask of another shape")
            if not i.val:
                return self.touch("masked assignment")
            if isinstance(x, Arr) and x.dims != seldims(i):
                if x.dims == () or x.dims == (1,):
                    pass
                else:
                    raise Unsupported("assignment of an array that is not the selection")
            return self.write(as_val(x, self), getattr(x, "space", None), x, "masked assignment")
        if i is Ellipsis or (isinstance(i, slice) and i == slice(None)):
            if isinstance(x, Arr) and x.dims != self.dims:
                if broadcast(self.dims, x.dims) != self.dims:
                    raise ValueError("could not broadcast input array")
                if self.isop:
                    raise Unsupported("broadcast into a matrix")
            return self.write(as_val(x, self), getattr(x, "space", None), x, "assignment into an array")
        raise Unsupported("assignment to an element or slice")

    def touch(self, what, same=False):
        c = core.ctx()
        c.data.setdefault("writes", []).append((self.buf, what))
        if self.buf.frame and not same:
            c.data.setdefault("framebad", []).append((self.buf, f"{what} modifies {self.buf.frame[0]}"))

    def write(self, val, space, src, what):
        old = self.buf.val
        self.touch(what, same=isinstance(val, dict) and isinstance(old, dict) and vsame(val, old) and (space is None or space == self.space))
        if not self.present and val is not None:
            raise Unsupported("assignment through a selection copy")
        if self.k in ("f", "i") and not realval(src):
            raise Unsupported("complex value stored in a real array")
        if self.k == "?" and isinstance(val, dict) and any(val.values()) and not same_kind(src):
            raise Unsupported("value stored in an array of the operator's own type, which may be an integer one")
        if val is None:
            raise Unsupported("selection without the generic component assigned to the whole array")
        if space is not None and self.space is None:
            self.space = space
        elif space is not None and self.space != space:
            self.space = space
        self.buf.val = dict(val) if isinstance(val, dict) else val

    # ---- arithmetic
    def __add__(self, o): return binop(self, o, "+")
    def __radd__(self, o): return binop(o, self, "+")
    def __sub__(self, o): return binop(self, o, "-")
    def __rsub__(self, o): return binop(o, self, "-")
    def __mul__(self, o): return binop(self, o, "*")
    def __rmul__(self, o): return binop(o, self, "*")
    def __truediv__(self, o): return binop(self, o, "/")
    def __rtruediv__(self, o): return binop(o, self, "/")

    def __pow__(self, k):
        return elementwise(self, lambda e: e ** k)

    def __neg__(self):
        return binop(self, -1, "*")

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return np_abs(self)

    def _iop(self, o, op):
        r = binop(self, o, op)
        if r is NotImplemented:
            return r
        if r.dims != self.dims:
            raise ValueError("non-broadcastable output operand")
        if self.val is None:
            if r.val is None:
                self.touch("in-place operation")
                return self
        self.write(r.val, r.space, r, "in-place operation")
        return self

    def __iadd__(self, o): return self._iop(o, "+")
    def __isub__(self, o): return self._iop(o, "-")
    def __imul__(self, o): return self._iop(o, "*")
    def __itruediv__(self, o): return self._iop(o, "/")

    # ---- comparisons -> masks
    def __lt__(self, o): return compare(self, o, "<")
    def __le__(self, o): return compare(self, o, "<=")
    def __gt__(self, o): return compare(self, o, ">")
    def __ge__(self, o): return compare(self, o, ">=")

    def __eq__(self, o):
        if o is None:
            return False
        return compare(self, o, "==")

    def __ne__(self, o):
        if o is None:
            return True
        return ~compare(self, o, "==")
    __hash__ = object.__hash__

    def item(self):
        raise Unsupported("item of an array")

    def _rkv_isinstance(self, c):
        return getattr(c, "__name__", "") == "ndarray" or c is Arr


class Mask:
    """boolean array; val: truth for the generic component"""

    def __init__(self, dims, key, val):
        self.dims, self.key, self.val = dims, key, val
        self.dtype = DT("b")
        self.ndim = len(dims)

    def __invert__(self):
        return Mask(self.dims, self.key[1] if self.key[0] == "not" else ("not", self.key), not self.val)

    def __and__(self, o):
        return Mask(self.dims, ("and", self.key, o.key), self.val and o.val)

    def __or__(self, o):
        return Mask(self.dims, ("or", self.key, o.key), self.val or o.val)

    def __xor__(self, o):
        if o is True:
            return ~self
        raise Unsupported("xor of masks")

    def __eq__(self, o):
        if o is False:
            return ~self
        if o is True:
            return self
        raise Unsupported("comparison of masks")
    __hash__ = None

    def __getitem__(self, i):
        if i == 0 and self.key[0] == "nonzero":
            return Mask(self.dims, self.key[1], self.val)
        raise Unsupported("element of a mask")

    def __iter__(self):
        if self.key[0] == "nonzero":
            return iter((Mask(self.dims, self.key[1], self.val),))
        raise Unsupported("iteration over a mask")

    def __len__(self):
        raise Unsupported("length of a mask")

    def _rkv_len(self):
        return self.count()

    @property
    def size(self):
        return self.count()

    def count(self):
        return selsize(self.key, self.val)

    def copy(self): return self
    def any(self, *a): return np_any(self)
    def all(self, *a): return np_all(self)
    def sum(self, *a): return self.count()

    def __bool__(self):
        raise Unsupported("truth value of a mask")

    def _rkv_isinstance(self, c):
        return getattr(c, "__name__", "") == "ndarray"


def selsize(key, inside):
    c = core.ctx()
    k = ("selsize", key)
    if k not in c.data:
        e = c.fresh("selsize", "Int")
        c.assume(e >= (1 if inside else 0))
        c.data[k] = e
    return SInt(c.data[k])


def dimval(d):
    if d == NDIM:
        return dim_n()
    if d == 1:
        return 1
    if d[0] == "sel":
        return selsize(d[1], d[2])
    if d[0] == "M":
        return d[1]
    raise Unsupported("dimension")


def todim(x):
    if isinstance(x, SInt):
        if x.e.eq(_DIMN):
            return NDIM
        c = core.ctx()
        for k, v in c.data.items():
            if isinstance(k, tuple) and k[0] == "selsize" and x.e.eq(v):
                return ("sel", k[1], z3.is_true(z3.simplify(v >= 1)))
        raise Unsupported("array of a computed size")
    if isinstance(x, El):
        return ("M", MCount(x))
    if isinstance(x, int) and x == 1:
        return 1
    raise Unsupported(f"array of size {x!r}")


class MCount(El):
    """number of contour nodes, usable as a dims tag"""

    def __init__(self, e):
        super().__init__(e.n, e.d, e.sing, True)

    def __eq__(self, o):
        o2 = El.of(o)
        return o2 is not None and self.same(o2)

    def __ne__(self, o): return not self.__eq__(o)
    def __hash__(self): return hash(self.key())


def seldims(m):
    return (("sel", m.key, m.val),)


def select(a, m):
    if a.dims != m.dims:
        raise Unsupported("mask of another shape")
    if not m.val:
        return Arr(seldims(m), None, a.space, a.k)
    v = a.val
    return Arr(seldims(m), dict(v) if isinstance(v, dict) else v, a.space, a.k)


def same_kind(x):
    """x is itself an array of that type, unscaled"""
    return isinstance(x, Arr) and x.k == "?" and x.buf is not None and x.present


def realval(x):
    if isinstance(x, Arr):
        return x.k in ("f", "i")
    if isinstance(x, El):
        return x.is_real()
    return not isinstance(x, complex)


def as_val(x, like):
    if isinstance(x, Arr):
        return x.val
    e = El.of(x)
    if e is None:
        raise Unsupported("assignment of a value without a model")
    if like.isop:
        if not e.is_zero():
            raise Unsupported("constant stored in every entry of a matrix")
        return e
    return {ONE: e} if not e.is_zero() else {}


def broadcast(a, b):
    out = []
    a, b = list(a), list(b)
    while a or b:
        x = a.pop() if a else 1
        y = b.pop() if b else 1
        if x == 1:
            out.append(y)
        elif y == 1 or x == y:
            out.append(x)
        else:
            raise ValueError(f"operands could not be broadcast together ({x}, {y})")
    return tuple(reversed(out))


def joinspace(a, b):
    if a is None or a == b:
        return b
    if b is None:
        return a
    raise Unsupported("eigen- and physical coordinates mixed in one operation")


def ones_only(v):
    return all(k == ONE for k in v)


def checkdiv(e):
    """division by e: remember when the divisor can vanish for some mode"""
    if ring.W in e.syms():
        return None
    lam = [s for s in e.syms() if s.startswith("lam")]
    if not lam:
        return None
    c = core.ctx()
    for name, fact in c.data.get("absfacts", []):
        if fact in (">=", "=="):
            b = ring.absbase(name)
            q = e
            # e must be a product of powers of b and of quantities that are positive
            for p in range(0, 9):
                r = q / b ** p
                if not any(s.startswith("lam") for s in r.syms()):
                    return None
    return "division by a quantity that vanishes or is tiny for some modes"


def taint(v, why):
    if not why:
        return v
    if isinstance(v, El):
        return El(v.n, v.d, v.sing or why)
    return {k: El(e.n, e.d, e.sing or why) for k, e in v.items()}


def binop(a, b, op):
    A, B = isinstance(a, Arr), isinstance(b, Arr)
    if isinstance(a, Mask) or isinstance(b, Mask):
        raise Unsupported("arithmetic with a mask")
    if not A:
        e = El.of(a)
        if e is None:
            return NotImplemented
    if not B:
        f = El.of(b)
        if f is None:
            return NotImplemented
    k = dtjoin(a.k if A else ("f" if realval(a) else "c"), b.k if B else ("f" if realval(b) else "c"))
    dims = broadcast(a.dims if A else (), b.dims if B else ())
    if (A and not a.present) or (B and not b.present):
        return Arr(dims, None, None, k)
    aop, bop = A and a.isop, B and b.isop
    if aop or bop:
        return opbin(a, b, op, aop, bop, A, B, k)
    if dims == (NDIM, NDIM):
        raise Unsupported("outer product")
    sp = joinspace(a.space if A else None, b.space if B else None)
    av = a.val if A else ({ONE: e} if not e.is_zero() else {})
    bv = b.val if B else ({ONE: f} if not f.is_zero() else {})
    if op == "+":
        v = vadd(av, bv)
    elif op == "-":
        v = vadd(av, bv, -1)
    elif op == "*":
        if ones_only(bv):
            v = vscale(av, bv.get(ONE, El()))
        elif ones_only(av):
            v = vscale(bv, av.get(ONE, El()))
        else:
            raise Unsupported("elementwise product of two states")
    else:
        if not ones_only(bv):
            raise Unsupported("division by a state")
        d = bv.get(ONE, El())
        if d.is_zero():
            raise Unsupported("division by zero")
        v = taint(vscale(av, d.inv()), checkdiv(d))
    return Arr(dims, v, sp, k)


def opspace(a, b):
    if a is None or a == b:
        return b
    if b is None:
        return a
    raise Unsupported("matrices between different coordinates combined")


def opbin(a, b, op, aop, bop, A, B, k):
    D = (NDIM, NDIM)
    if aop and bop:
        if op == "+":
            return Arr(D, a.val + b.val, opspace(a.space, b.space), k)
        if op == "-":
            return Arr(D, a.val - b.val, opspace(a.space, b.space), k)
        if a.val.is_zero() or (b.val.is_zero() and op == "*"):
            return Arr(D, El(), None, k)
        raise Unsupported("elementwise product of matrices")
    m, x = (a, b) if aop else (b, a)
    if isinstance(x, Arr):
        if x.dims in ((), (1,)):
            e = x.val.get(ONE, El())
        elif x.dims in ((NDIM,), (1, NDIM)) and op == "*" and ones_only(x.val) and m.space is not None and m.space[0] == x.space:
            return Arr(D, m.val * x.val.get(ONE, El()), m.space, k)
        else:
            raise Unsupported("broadcast of an array against a matrix")
    else:
        e = El.of(x)
    if op == "*":
        return Arr(D, m.val * e, m.space, k)
    if op == "/" and aop:
        return Arr(D, m.val / e, m.space, k)
    if op in "+-" and e.is_zero():
        return Arr(D, m.val if op == "+" or aop else -m.val, m.space, k)
    raise Unsupported("constant added to every entry of a matrix")


def matmul(a, b):
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        if isnum(a) or isnum(b):
            return binop(a, b, "*")
        raise Unsupported("matrix product with a value without a model")
    if not a.isop:
        if b.isop:
            raise Unsupported("row vector times matrix")
        raise Unsupported("inner product of vectors")
    if b.isop:
        if a.val.is_zero() or b.val.is_zero():
            return Arr((NDIM, NDIM), El(), None)
        if a.space is None or b.space is None:
            return Arr((NDIM, NDIM), a.val * b.val, a.space or b.space)
        if a.space[0] != b.space[1]:
            raise Unsupported("product of matrices in different coordinates")
        return Arr((NDIM, NDIM), a.val * b.val, (b.space[0], a.space[1]))
    if b.dims != (NDIM,):
        raise Unsupported("matrix times an array of another shape")
    if not a.val.is_zero() and a.space is not None and b.space is not None and a.space[0] != b.space:
        raise Unsupported("matrix applied to a vector in other coordinates")
    if a.space is not None and a.space[0] == a.space[1] and ones_only(b.val) and b.val:
        raise Unsupported("matrix applied to a coefficient vector")
    sp = a.space[1] if a.space is not None else b.space
    if a.val.is_zero():
        sp = None
    if ONE in b.val:
        raise Unsupported("matrix applied to a constant vector")
    return Arr((NDIM,), vscale(b.val, a.val), sp, dtjoin(a.k, b.k))


def store(r, out):
    if out is None:
        return r
    out[...] = r
    return out


def elementwise(x, f, realout=False):
    if isnum(x):
        return f(El.of(x))
    if not isinstance(x, Arr):
        raise Unsupported("function of a value without a model")
    if not x.present:
        return Arr(x.dims, None, x.space, x.k)
    if x.isop:
        raise Unsupported("elementwise function of a matrix")
    if not ones_only(x.val):
        raise Unsupported("nonlinear elementwise function of a state")
    e = x.val.get(ONE, El())
    r = f(e)
    return Arr(x.dims, {} if r.is_zero() else {ONE: r}, x.space, x.k if not realout else "f")


def np_abs(x):
    if isinstance(x, Arr) and x.present and not ones_only(x.val):
        raise Unsupported("modulus of a state")
    return elementwise(x, abs, True)


def compare(a, b, op):
    A = a if isinstance(a, Arr) else b
    dims = broadcast(a.dims if isinstance(a, Arr) else (), b.dims if isinstance(b, Arr) else ())
    if (isinstance(a, Arr) and not a.present) or (isinstance(b, Arr) and not b.present):
        raise Unsupported("comparison within a selection")
    if dims != (NDIM,):
        raise Unsupported("comparison of arrays of this shape")

    def elof(x):
        if isinstance(x, Arr):
            if not ones_only(x.val):
                raise Unsupported("comparison of a state")
            return x.val.get(ONE, El())
        return El.of(x)
    d = elof(a) - elof(b)
    if d.is_zero():
        t = "=="
        key = "0"
    else:
        if not d.is_real():
            raise Unsupported("comparison of complex values")
        lead = d.n[min(d.n)]
        flip = lead < 0
        d = d * El.of(1 / abs(lead))
        if flip:
            d = -d
        key = d.key()
        t = order3(d, key)
        if flip:
            t = {"<": ">", ">": "<", "==": "=="}[t]
    val = {"<": t == "<", "<=": t in ("<", "=="), ">": t == ">", ">=": t in (">", "=="), "==": t == "=="}[op]
    return Mask(dims, ("cmp", key, op), val)


def order3(d, key):
    """sign of d for the generic component: one of < == > (a three-way fork, consistent along the path)"""
    c = core.ctx()
    ab = [s for s in d.syms() if s.startswith("abs")]
    tbl = c.data.setdefault("order3", {})
    if key in tbl:
        return tbl[key]
    fo = c.data.get("order3_force")
    if fo is not None and any(x.startswith("abs") for x in d.syms()):
        lead = [v for k, v in d.n.items() if any(x.startswith("abs") for x, _ in k[0])]
        if len(lead) == 1 and not d.d:
            tbl[key] = fo if lead[0] > 0 else {"<": ">", ">": "<"}[fo]
            c.data.setdefault("absfacts", []).extend((x, ">=" if fo == ">" else "<") for x in d.syms() if x.startswith("abs"))
            return tbl[key]
    e = d.z3()
    zs = [x for x in d.syms()]
    for s in zs:
        if s.startswith("abs") and ("nonneg", s) not in c.data:
            c.data[("nonneg", s)] = True
            c.assume(ring.z3sym(s) >= 0)
    if c.decide(e < 0):
        t = "<"
    elif not (c.data.get("order3_noeq") and any(x.startswith("abs") for x in d.syms())) and c.decide(e == 0):
        t = "=="
    else:
        t = ">"
    tbl[key] = t
    # fact |z| >= threshold usable to justify divisions: d = |z|*k - thr with thr the modecutoff
    for s in ab:
        co = [(k, v) for k, v in d.n.items() if k[0] == ((s, 1),) and not k[1]]
        rest = El({k: v for k, v in d.n.items() if k[0] != ((s, 1),)}, d.d)
        if len(co) == 1 and not d.d and rest.syms() <= {"mc"} and rest.syms():
            v = co[0][1]
            sg = t if v > 0 else {"<": ">", ">": "<", "==": "=="}[t]
            b = ring.absbase(s)
            c.data.setdefault("absfacts", []).append((s, {">": ">=", "==": "==", "<": "<"}[sg]))
    return t


def np_any(x):
    if isinstance(x, Mask):
        if x.val:
            return True
        if "order3_force" in core.ctx().data:
            return False
        return core.ctx().free(("any", x.key))
    raise Unsupported("any of an array")


def np_all(x):
    if isinstance(x, Mask):
        if not x.val:
            return False
        if "order3_force" in core.ctx().data:
            return True
        return core.ctx().free(("all", x.key))
    raise Unsupported("all of an array")


def inside(pole):
    """is the pole (in units of the contour radius) inside the contour? for functions of an operator: yes, assumed;
    for a single mode it is not known"""
    return core.ctx().data.get("pole_inside")


def np_mean(x, axis=None):
    s, cnt = summed(x, axis)
    return s


def summed(x, axis):
    if not isinstance(x, Arr):
        raise Unsupported("sum of a value without a model")
    if x.isop:
        raise Unsupported("sum over a matrix")
    if axis is None:
        if len(x.dims) != 1:
            raise Unsupported("sum over all axes")
        axis = 0
    if not isinstance(axis, int):
        raise Unsupported("axis")
    ax = axis % len(x.dims) if -len(x.dims) <= axis < len(x.dims) else None
    if ax is None:
        raise ValueError("axis out of bounds")
    d = x.dims[ax]
    if not (isinstance(d, tuple) and d[0] == "M"):
        raise Unsupported("sum over a dimension that is not the contour")
    dims = x.dims[:ax] + x.dims[ax + 1:]
    if not x.present:
        return Arr(dims, None, x.space, x.k), d[1]
    if not d[1].same(sym("M")):
        raise Unsupported("sum over a number of nodes other than contour_points")
    v = {}
    for k, e in x.val.items():
        if "j" in e.syms():
            raise Unsupported("sum over a node index")
        m = ring.contour_mean(e, inside)
        if not m.is_zero() or m.sing:
            v[k] = m
    r = Arr(dims, v, x.space, x.k)
    if dims == ():
        return v.get(ONE, El()), d[1]
    return r, d[1]


def np_sum(x, axis=None):
    if isinstance(x, Mask):
        return x.count()
    if isinstance(x, (list, tuple)) and axis in (None, 0):
        r = 0
        for y in x:
            r = r + y
        return r
    s, cnt = summed(x, axis)
    return s * cnt


class AccLoop:
    """for point in contour: the body is executed once for a generic node; accumulators get M times the mean"""
    cut = True
    acc = True

    def __init__(self, rt, names, item, count):
        if not El.of(count).same(sym("M")):
            raise Unsupported("loop over a number of nodes other than contour_points")
        self.names, self.itemv = names, item
        self.state = 0
        self.saved = {}
        self.subs = ()
        self.whole = False
        self.slots = []

    @staticmethod
    def snap(loc):
        """containers and objects in scope, with what they hold"""
        out = {}

        def note(o, depth):
            if id(o) in out:
                return
            if isinstance(o, dict):
                out[id(o)] = (o, dict(o))
            elif isinstance(o, (list, tuple)):
                out[id(o)] = (o, dict(enumerate(o)))
            elif isinstance(o, set):
                out[id(o)] = (o, {k: k for k in o})
            elif (getattr(type(o), "__module__", "") or "").startswith("rkstiff") and hasattr(o, "__dict__"):
                out[id(o)] = (o, dict(vars(o)))
            else:
                return
            if depth:
                for v in list(out[id(o)][1].values()):
                    note(v, depth - 1)
        for v in list(loc.values()):
            note(v, 2)
        return out

    def start(self, loc):
        out = []
        for x in self.subs:
            o = loc.get(x)
            if not isinstance(o, (dict, list)) or any(o is q for q, _, _, _ in self.slots):
                continue
            for key, v in (list(o.items()) if isinstance(o, dict) else list(enumerate(o))):
                a = sym(f"acc{x}{len(self.slots)}")
                if isinstance(v, Arr) and v.present and not v.buf.frame:
                    nv = Arr(v.dims, v.val + a if v.isop else vadd(v.val, {ONE: a}), v.space, v.k)
                elif isnum(v):
                    nv = El.of(v) + a
                else:
                    continue
                self.slots.append((o, key, v, a))
                o[key] = nv
        self.before = self.snap({k: v for k, v in loc.items() if not k.startswith("_rkv_")})
        for i, x in enumerate(self.names):
            v = loc.get(x, None)
            a = sym(f"acc{i}")
            if isinstance(v, Arr) and v.present and not v.buf.frame:
                if v.isop:
                    nv = Arr(v.dims, v.val + a, v.space, v.k)
                else:
                    nv = Arr(v.dims, vadd(v.val, {ONE: a}), v.space, v.k)
                nv.k = v.k
                self.saved[x] = (v, a)
                out.append(nv)
            elif isnum(v):
                self.saved[x] = (v, a)
                out.append(El.of(v) + a)
            else:
                from .core import Poison
                out.append(Poison(x))
        c = core.ctx()
        self.nw = len(c.data.setdefault("writes", []))
        self.serial = Buf.count
        return out

    def more(self):
        self.state += 1
        return self.state == 1

    def item(self):
        return self.itemv

    def tick(self):
        pass

    def back(self, loc):
        self.whole = True

    def finish(self, loc):
        from .core import Poison
        if not self.whole:
            raise Unsupported("loop over the contour is left early")
        out = []
        c = core.ctx()
        accs = [loc[x].buf for x in self.saved if isinstance(loc.get(x), Arr)] + [o[k].buf for o, k, _, _ in self.slots if isinstance(o[k], Arr)]
        for b, what in c.data["writes"][self.nw:]:
            if b.serial <= self.serial and b not in accs:
                raise Unsupported("loop over the contour writes an array in place")
        mine = [o for o, _, _, _ in self.slots]
        for o, d in self.before.values():
            if any(o is q for q in mine):
                now = dict(o) if isinstance(o, dict) else dict(enumerate(o))
                if set(now) != set(d) or any(now[k] is not d[k] and not any(o is q and k == kk for q, kk, _, _ in self.slots) for k in d):
                    raise Unsupported("loop over the contour changes a container")
                continue
            now = dict(o) if isinstance(o, dict) else dict(enumerate(o)) if isinstance(o, (list, tuple)) else \
                {k: k for k in o} if isinstance(o, set) else dict(vars(o))
            if set(now) != set(d) or any(now[k] is not d[k] for k in d):
                raise Unsupported("loop over the contour changes a container or an object")
        for o, key, old, a in self.slots:
            r = self.result(old, a, o[key])
            o[key] = Poison(key) if r is None else r
        for x in self.names:
            if x not in self.saved:
                out.append(Poison(x))
                continue
            old, a = self.saved[x]
            r = self.result(old, a, loc.get(x))
            out.append(Poison(x) if r is None else r)
        return out

    def result(self, old, a, new):
        an, = a.syms()
        if isinstance(old, Arr) != isinstance(new, Arr):
            if isnum(old) and El.of(old).is_zero() and isinstance(new, Arr):
                # acc = 0; acc = acc + array
                old = Arr(new.dims, El() if new.isop else {}, new.space, new.k)
            else:
                raise Unsupported("accumulator changes its kind")

        def total(o, n):
            d = n - (o + a)
            if an in d.syms():
                if an not in n.syms():
                    return None
                raise Unsupported("accumulation that is not a sum")
            return o + ring.contour_mean(d, inside) * sym("M")
        if isinstance(new, Arr):
            if new.isop:
                t = total(old.val, new.val)
                r = None if t is None else Arr(new.dims, t, new.space, new.k)
            else:
                v = {}
                r = True
                for k in set(old.val) | set(new.val) | {ONE}:
                    t = total(old.val.get(k, El()), new.val.get(k, El())) if k == ONE else \
                        old.val.get(k, El()) + ring.contour_mean(new.val.get(k, El()) - old.val.get(k, El()), inside) * sym("M")
                    if t is None:
                        r = None
                        break
                    if not t.is_zero():
                        v[k] = t
                if r:
                    r = Arr(new.dims, v, new.space, new.k)
        else:
            r = total(El.of(old), El.of(new))
        return r

    def done(self):
        pass


# ---------------------------------------------------------------- numpy / scipy contract models
class UFunc:
    def __init__(self, f):
        self.f = f

    def __call__(self, *a, out=None, **k):
        if k.get("where") is not None:
            raise Unsupported("ufunc where=")
        return store(self.f(*a), out)


def mk(dims, zero=True, dtype=None, one=False):
    k = dkind(dtype) if dtype is not None else "f"
    if not isinstance(dims, tuple):
        dims = (dims,) if not isinstance(dims, list) else tuple(dims)
    d = tuple(todim(x) for x in dims)
    if d == (NDIM, NDIM):
        if one:
            raise Unsupported("matrix of ones")
        return Arr(d, El() if zero else sym(f"junk{Buf.count}"), None, k)
    return Arr(d, ({ONE: El.of(1)} if one else {}) if zero else {ONE: sym(f"junk{Buf.count}")}, None, k)


def np_zeros(shape, dtype=None, order=None):
    return mk(shape, True, dtype)


def np_like(x, zero=True, dtype=None, one=False):
    k = dkind(dtype) if dtype is not None else x.k
    if x.isop:
        if one:
            raise Unsupported("matrix of ones")
        return Arr(x.dims, El() if zero else sym(f"junk{Buf.count}"), None, k)
    if not x.present:
        return Arr(x.dims, None, None, k)
    return Arr(x.dims, ({ONE: El.of(1)} if one else {}) if zero else {ONE: sym(f"junk{Buf.count}")}, None, k)


def np_eye(n, m=None, *a, dtype=None, **kw):
    if todim(n) != NDIM or (m is not None and todim(m) != NDIM) or a:
        raise Unsupported("identity of another size")
    return Arr((NDIM, NDIM), El.of(1), None, dkind(dtype) if dtype is not None else "f")


def np_arange(*a, **k):
    if k.get("dtype") is not None:
        k.pop("dtype")
    if k:
        raise Unsupported("arange options")
    lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
    if len(a) > 2 and not (isnum(a[2]) and El.of(a[2]).const() == 1):
        raise Unsupported("arange with a step")
    lo, hi = El.of(lo), El.of(hi)
    if lo is None or hi is None or lo.const() is None:
        raise Unsupported("arange bounds")
    # number of elements: ceil(hi - lo) with hi = M + constant
    d = hi - sym("M")
    c = d.const()
    if c is None:
        raise Unsupported("arange of another length")
    import math
    n = math.ceil(c - lo.const())
    return Arr((("M", MCount(sym("M") + n)),), {ONE: lo + sym("j")}, None, "f")


def np_linspace(a, b, num=50, endpoint=True, **k):
    if endpoint or k or not isinstance(num, El):
        raise Unsupported("linspace")
    a, b = El.of(a), El.of(b)
    return Arr((("M", MCount(num)),), {ONE: a + (b - a) / num * sym("j")}, None, "f")


def np_meshgrid(x, y, **k):
    if k.get("indexing", "xy") != "xy" or set(k) - {"indexing", "sparse", "copy"}:
        if k.get("indexing") == "ij":
            dims = x.dims + y.dims
            return (Arr(dims, x.val, x.space, x.k), Arr(dims, y.val, y.space, y.k))
        raise Unsupported("meshgrid options")
    dims = y.dims + x.dims
    return (Arr(dims, x.val and dict(x.val) if x.present else None, x.space, x.k),
            Arr(dims, dict(y.val) if y.present else None, y.space, y.k))


def np_where(c, *ab):
    if not isinstance(c, Mask):
        raise Unsupported("where")
    if not ab:
        return Mask(c.dims, ("nonzero", c.key), c.val)
    x = ab[0] if c.val else ab[1]
    dims = c.dims
    if isinstance(x, Arr):
        if broadcast(dims, x.dims) != dims:
            raise Unsupported("where of another shape")
        return Arr(dims, dict(x.val), x.space, x.k)
    return Arr(dims, as_val(x, Arr(dims, {})), None, "c")


def np_inv(m):
    if not isinstance(m, Arr) or not m.isop:
        raise Unsupported("inverse of a value without a model")
    why = None
    if m.space is None or m.space[0] == m.space[1]:
        if ring.W not in m.val.syms():
            why = "inverse of a function of the operator that may be singular"
    v = m.val.inv()
    return Arr(m.dims, taint(v, why), None if m.space is None else (m.space[1], m.space[0]), m.k)


def np_expm(m):
    if not isinstance(m, Arr):
        raise Unsupported("expm of a value without a model")
    if not m.isop:
        raise ValueError("expected square matrix")
    if m.space is not None and m.space[0] != m.space[1]:
        raise Unsupported("exponential of a change of coordinates")
    return Arr(m.dims, ring.exp(m.val), m.space, m.k)


class EigResult(tuple):
    @property
    def eigenvalues(self): return self[0]
    @property
    def eigenvectors(self): return self[1]


def np_eig(m):
    if not isinstance(m, Arr) or not m.isop or m.space != ("phys", "phys"):
        raise Unsupported("eig of this matrix")
    return EigResult((Arr((NDIM,), {ONE: m.val}, "eig", "c"), Arr(m.dims, El.of(1), ("eig", "phys"), "c")))


def np_cond(m, *a):
    c = core.ctx()
    if "cond" not in c.data:
        c.data["cond"] = sym("cond", positive=True)
        c.assume(ring.z3sym("cond") >= 1)
    return c.data["cond"]


def np_diag(v):
    if isinstance(v, Arr) and v.dims == (NDIM,) and ones_only(v.val):
        return Arr((NDIM, NDIM), v.val.get(ONE, El()), (v.space, v.space) if v.space else None, v.k)
    raise Unsupported("diag")


def np_exp(x):
    return elementwise(x, ring.exp)


def opmul(a, b):
    if isinstance(a, Arr):
        return a * b
    return b * a if isinstance(b, Arr) else El.of(a) * El.of(b)


def asarr(x, dtype=None, copy=None, **k):
    if isinstance(x, (list, tuple)):
        raise Unsupported("array built from a list")
    if isinstance(x, Arr) and dtype is not None:
        return x.astype(dtype, copy=False)
    return x


def ndtype(name, t):
    def conv(*a):
        if len(a) != 1 or not isnum(a[0]) or (t is float and isinstance(a[0], complex)):
            raise Unsupported(f"conversion by {name}")
        return a[0]
    r = typelike(t, conv)
    r.__name__ = name
    return r


class ndarray:
    pass


def numpy_shim():
    C, F = ndtype("complex128", complex), ndtype("float64", float)
    lin = Shim("numpy.linalg", inv=np_inv, eig=np_eig, cond=np_cond, solve=lambda a, b: matmul(np_inv(a), b), LinAlgError=ValueError)

    def ufun(f):
        return UFunc(f)
    iscx = lambda x: x.dtype.kind == "c" if isinstance(x, Arr) else False   # noqa: E731
    return Shim(
        "numpy", linalg=lin, ndarray=ndarray, complex128=C, complex_=C, cdouble=C, complexfloating=C, float64=F, double=F, floating=F,
        bool_=bool, int64=int, pi=sym("pi", positive=True), newaxis=None, zeros=np_zeros, ones=lambda s, dtype=None: mk(s, True, dtype, True),
        empty=lambda s, dtype=None, order=None: mk(s, False, dtype), zeros_like=lambda x, dtype=None: np_like(x, True, dtype),
        empty_like=lambda x, dtype=None: np_like(x, False, dtype), ones_like=lambda x, dtype=None: np_like(x, True, dtype, True),
        eye=np_eye, identity=lambda n, dtype=None: np_eye(n, dtype=dtype), exp=ufun(np_exp),
        expm1=ufun(lambda x: np_exp(x) - 1), abs=np_abs, absolute=np_abs, fabs=np_abs, sum=np_sum, mean=np_mean, average=np_mean, any=np_any, all=np_all,
        logical_not=lambda m: ~m, invert=lambda m: ~m, logical_and=lambda a, b: a & b, logical_or=lambda a, b: a | b, where=np_where,
        nonzero=lambda m: np_where(m), flatnonzero=lambda m: m, count_nonzero=lambda m: m.count(), meshgrid=np_meshgrid, arange=np_arange,
        linspace=np_linspace, asarray=asarr, array=lambda x, dtype=None, copy=True, **k: (asarr(x, dtype) if copy is False else asarr(x, dtype).copy()),
        ascontiguousarray=asarr, copy=lambda x: x.copy(), multiply=ufun(opmul), add=ufun(lambda a, b: a + b),
        subtract=ufun(lambda a, b: a - b), divide=ufun(lambda a, b: a / b), true_divide=ufun(lambda a, b: a / b), negative=ufun(lambda a: -a),
        matmul=ufun(matmul), dot=ufun(matmul), square=ufun(lambda x: x ** 2), power=ufun(lambda x, k: x ** k), diag=np_diag,
        isscalar=lambda x: isnum(x), ndim=lambda x: x.ndim, shape=lambda x: x.shape, iscomplexobj=iscx, isrealobj=lambda x: not iscx(x),
        less=lambda a, b: a < b, greater=lambda a, b: a > b, less_equal=lambda a, b: a <= b, greater_equal=lambda a, b: a >= b,
        copyto=lambda d, s: d.__setitem__(Ellipsis, s), isnan=lambda x: isinstance(x, float) and x != x,
        isinf=lambda x: isinstance(x, float) and x in (float('inf'), -float('inf')), isfinite=lambda x: not isinstance(x, float) or x - x == 0,
        max=np_max, min=np_min, maximum=np_max2, minimum=np_min2, amax=np_max, amin=np_min, clip=lambda x, a, b: np_min2(np_max2(x, a), b), nan=float('nan'), inf=float('inf'),
        isclose=np_isclose, errstate=NullCtx, fill_diagonal=Missing("fill_diagonal"), finfo=np_finfo,
        atleast_1d=lambda x: x, real_if_close=Missing("real_if_close"), squeeze=lambda x: x, float32=Missing("float32"),
        complex64=Missing("complex64"), single=Missing("single"), float16=Missing("float16"))


def np_finfo(t):
    if dkind(t) not in ("f", "c"):
        raise Unsupported("finfo")
    return Shim("finfo", eps=Fr(1, 2 ** 52), max=Fr(2) ** 1024 - Fr(2) ** 971, tiny=Fr(1, 2 ** 1022), resolution=Fr(1, 10 ** 15))


def _ext(f):
    def g(x, *a, **k):
        if a or k or not isinstance(x, (list, tuple)) or not x or not all(isnum(y) for y in x):
            raise Unsupported("maximum or minimum of an array")
        if any(isinstance(y, float) and y != y for y in x):
            return float("nan")
        r = x[0]
        for y in x[1:]:
            if f(y, r):
                r = y
        return r
    return g


np_max, np_min = _ext(lambda a, b: a > b), _ext(lambda a, b: a < b)
np_max2, np_min2 = (lambda a, b: np_max([a, b])), (lambda a, b: np_min([a, b]))


def np_isclose(a, b, rtol=None, atol=None, **k):
    if isinstance(a, Arr) or isinstance(b, Arr) or a is None or b is None:
        raise Unsupported("isclose")
    a, b = El.of(a), El.of(b)
    rt = El.of(Fr(1, 10 ** 5) if rtol is None else rtol)
    at = El.of(Fr(1, 10 ** 8) if atol is None else atol)
    return abs(a - b) <= at + rt * abs(b)


class NullCtx:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class SchemeRuntime(Runtime):
    def lit(self, text):
        if text.endswith("j"):
            return El.of(self.lit(text[:-1])) * sym("I")
        return lit(text)

    def numdiv(self, a, b):
        x, y = El.of(a), El.of(b)
        if y.is_zero():
            raise ZeroDivisionError("division by zero")
        r = x / y
        c = r.const()
        return c if c is not None else r

    def div(self, a, b):
        if isinstance(a, (int, float, complex, Fr)) and isinstance(b, (int, float, complex, Fr)):
            return self.numdiv(a, b)
        return super().div(a, b)

    def pow(self, a, b):
        if isnum(a) and isnum(b):
            r = El.of(a) ** b
            c = r.const()
            return r if c is None else c
        return a ** b

    def abs_(self, x):
        return abs(x)

    def loop(self, ident, mod, qual, names, kind, it):
        if kind == "for":
            if isinstance(it, Arr) and len(it.dims) == 1 and it.dims[0][0] == "M":
                return AccLoop(self, names, it.val.get(ONE, El()), it.dims[0][1])
            if isinstance(it, ElRange):
                return AccLoop(self, names, sym("j"), it.n)
        return NativeLoop(it)

    def range_(self, *a):
        if any(isinstance(x, El) for x in a):
            if len(a) == 1:
                return ElRange(a[0])
            raise Unsupported("symbolic range")
        return super().range_(*a)

    def float_(self, *a):
        if a and isinstance(a[0], (El, Fr)):
            return a[0]
        return super().float_(*a)

    def complex_(self, *a):
        if len(a) == 1 and isnum(a[0]):
            return a[0]
        raise Unsupported("complex()")


class ElRange:
    def __init__(self, n):
        self.n = n

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range")


def lit(text):
    """the rational a decimal literal stands for (full-precision literals: the simplest rational they round)"""
    q = Fr(text)
    digits = len(text.lower().split("e")[0].replace(".", "").replace("-", "").strip("0"))
    if digits >= 13:
        g = q.limit_denominator(10 ** 6)
        if abs(g - q) <= abs(q) * Fr(1, 10 ** (digits - 2)):
            return g
    return q
