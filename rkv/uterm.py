"""Uninterpreted terms: every operation of numpy, scipy and arithmetic is an unknown function of its arguments, every
condition on unknown values is free.  Two executions of real code under the same decisions give the same term exactly
when they compute the same thing whatever those functions are; used for relational (two-run) contracts.  Loops are cut:
the whole state is replaced by unknowns at the loop head, so that the comparison of one iteration is an induction step.
"""
import builtins
import contextlib
import types
from . import core
from .core import Unsupported, PathEnd
from .extract import World
from .runtime import Runtime, Shim, Missing, NativeLoop, TList, typelike

TAB = {}
INV = []


def intern(x):
    i = TAB.get(x)
    if i is None:
        i = TAB[x] = len(INV)
        INV.append(x)
    return i


def key(x):
    """hashable canonical form of an argument"""
    if isinstance(x, U):
        return ("u", x.i)
    if isinstance(x, bool) or x is None or x is Ellipsis:
        return ("c", repr(x))
    if isinstance(x, (int, float, complex, str)):
        return (type(x).__name__, repr(x))
    if isinstance(x, (tuple, list)):
        return ("s",) + tuple(key(y) for y in x)
    if isinstance(x, slice):
        return ("slice", key(x.start), key(x.stop), key(x.step))
    if isinstance(x, dict):
        return ("d",) + tuple((str(k), key(v)) for k, v in x.items())
    if isinstance(x, (type, types.FunctionType, types.BuiltinFunctionType, Fn)):
        return ("f", getattr(x, "__name__", str(x)))
    raise Unsupported(f"value of type {type(x).__name__} in an uninterpreted operation")


class U:
    """an unknown value (scalar or array), mutable in place"""
    __slots__ = ("i", "nd", "base")

    def __init__(self, i, nd=None, base=None):
        self.i, self.nd, self.base = i, nd, base

    # construction
    @staticmethod
    def app(op, *args, **k):
        nd = k.pop("_nd", None)
        return U(intern((op,) + tuple(key(a) for a in args) + ((key(k),) if k else ())), nd)

    def set(self, i, how=None):
        self.i = i
        if self.base is not None:
            b, h = self.base
            b.set(intern(("viewset", b.i, h, i)))

    def _bin(op):
        def f(self, o):
            if isinstance(o, (str, dict)) or callable(o):
                return NotImplemented
            return U.app(op, self, o, _nd=self.nd)
        return f

    def _rbin(op):
        def f(self, o):
            if isinstance(o, (str, dict)) or callable(o):
                return NotImplemented
            return U.app(op, o, self, _nd=self.nd)
        return f

    def _ibin(op):
        def f(self, o):
            self.set(intern((op, ("u", self.i), key(o))))
            return self
        return f
    __add__, __sub__, __mul__, __truediv__, __floordiv__, __mod__, __pow__, __matmul__ = map(_bin, "+ - * / // % ** @".split())
    __radd__, __rsub__, __rmul__, __rtruediv__, __rfloordiv__, __rmod__, __rpow__, __rmatmul__ = map(_rbin, "+ - * / // % ** @".split())
    __iadd__, __isub__, __imul__, __itruediv__, __ifloordiv__, __ipow__ = map(_ibin, "+ - * / // **".split())
    __lt__, __le__, __gt__, __ge__ = map(_bin, "< <= > >=".split())
    __and__, __or__, __xor__ = map(_bin, "& | ^".split())
    __rand__, __ror__, __rxor__ = map(_rbin, "& | ^".split())

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return U.app("==", self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return U.app("!=", self, o)

    def __hash__(self): return hash(("U", self.i))
    def __neg__(self): return U.app("neg", self, _nd=self.nd)
    def __pos__(self): return U(self.i, self.nd)
    def __abs__(self): return U.app("abs", self, _nd=self.nd)
    def __invert__(self): return U.app("~", self, _nd=self.nd)
    def __round__(self, *a): return U.app("round", self, *a)

    def __bool__(self):
        return core.ctx().free(("truth", self.i))

    def __getitem__(self, idx):
        r = U.app("[]", self, idx)
        r.base = (self, ("[]", key(idx)))
        return r

    def __setitem__(self, idx, v):
        self.set(intern(("[]=", self.i, key(idx), key(v))))

    def _rkv_len(self): return U.app("len", self)
    def _rkv_float(self): return U.app("float", self)
    def _rkv_int(self): return U.app("int", self)

    def __iter__(self):
        raise Unsupported("iteration over an unknown value")

    def __format__(self, s): return f"<u{self.i}>"
    def __repr__(self): return f"<u{self.i}>"
    __str__ = __repr__

    INPLACE = {"fill", "sort", "resize", "put", "itemset", "partition", "setflags", "byteswap"}
    VIEWS = {"T", "real", "imag", "flat"}

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        if a == "shape" and self.nd is not None:
            return tuple(U.app("extent", self, k) for k in range(self.nd))
        if a == "ndim" and self.nd is not None:
            return self.nd
        if a in ("shape", "ndim", "size", "dtype", "itemsize", "nbytes"):
            return U.app(a, self)
        if a in self.VIEWS:
            r = U.app(a, self, _nd=self.nd)
            r.base = (self, (a,))
            return r
        return Method(self, a)

    def __setattr__(self, a, v):
        if a in ("i", "nd", "base"):
            object.__setattr__(self, a, v)
            return
        self.set(intern((f".{a}=", self.i, key(v))))

    @staticmethod
    def _rkv_isinstance(x, k):
        if k is object:
            return True
        t = getattr(k, "_rkv_type", k)
        return core.ctx().free(("isinstance", x.i, getattr(t, "__name__", str(t))))


class Method:
    ALIAS = {"view", "reshape", "ravel", "squeeze", "transpose", "swapaxes", "diagonal"}
    PURE = {"astype", "copy", "conj", "conjugate", "round", "clip", "dot", "sum", "mean", "max", "min", "prod", "std", "var", "any", "all", "argmax",
            "argmin", "argsort", "cumsum", "cumprod", "flatten", "item", "nonzero", "ptp", "repeat", "searchsorted", "take", "tolist", "trace", "tobytes",
            "compress", "choose", "is_integer", "hex", "bit_length", "as_integer_ratio", "keys", "values", "items", "get"}

    def __init__(self, u, a):
        self.u, self.a = u, a

    def __call__(self, *args, **k):
        if k.get("out") is not None:
            raise Unsupported("out= of a method")
        if self.a in U.INPLACE:
            self.u.set(intern((self.a, self.u.i, key(args), key(k))))
            return None
        if self.a not in self.PURE and self.a not in self.ALIAS:
            raise Unsupported(f"method .{self.a} of an unknown value: not known to be pure")
        nd = self.u.nd if self.a in ("astype", "copy", "conj", "conjugate", "round", "clip") else None
        r = U.app("." + self.a, self.u, *args, _nd=nd, **k)
        if self.a in self.ALIAS:
            r.base = (self.u, (self.a, key(args)))
        if self.a == "astype" and k.get("copy") is False:
            r.base = (self.u, ("astype",))
        return r


class Fn:
    """uninterpreted pure library function"""
    MUTATE = {"numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask", "numpy.fill_diagonal"}
    PAIR = {"numpy.linalg.eig": 2, "numpy.linalg.eigh": 2, "numpy.linalg.slogdet": 2, "scipy.linalg.eig": 2, "numpy.divmod": 2, "numpy.modf": 2,
            "scipy.linalg.schur": 2, "scipy.linalg.lu_factor": 2}

    UNARY = set("exp exp2 expm1 log log2 log10 log1p sqrt cbrt square abs absolute fabs negative positive sign sin cos tan arcsin arccos arctan sinh cosh "
                "tanh arcsinh arccosh arctanh conj conjugate reciprocal floor ceil trunc rint isnan isinf isfinite signbit logical_not invert "
                "deg2rad rad2deg degrees radians spacing".split())
    BINARY = set("add subtract multiply divide true_divide floor_divide power float_power mod remainder fmod maximum minimum fmax fmin hypot arctan2 "
                 "copysign nextafter ldexp greater greater_equal less less_equal equal not_equal logical_and logical_or logical_xor matmul heaviside".split())
    ALIAS = set("asarray asanyarray ascontiguousarray asfortranarray atleast_1d atleast_2d atleast_3d reshape ravel squeeze real imag transpose swapaxes moveaxis "
                "rollaxis diagonal broadcast_to expand_dims flip fliplr flipud rot90 require real_if_close nan_to_num".split())
    PURE = ALIAS | set("array copy zeros ones empty full zeros_like ones_like empty_like full_like eye identity diag arange linspace logspace geomspace meshgrid "
                       "sum prod mean std var median max min amax amin nanmax nanmin nansum nanmean ptp any all argmax argmin nanargmax argsort sort unique where "
                       "nonzero flatnonzero count_nonzero cumsum cumprod diff dot vdot inner outer tensordot einsum kron cross trace norm inv solve eig eigh eigvals "
                       "eigvalsh cond det slogdet svd qr pinv lstsq matrix_power matrix_rank expm logm sqrtm fft ifft rfft irfft fft2 ifft2 fftn ifftn fftfreq "
                       "rfftfreq fftshift ifftshift concatenate stack vstack hstack column_stack append insert delete tile repeat roll clip round around isclose "
                       "allclose array_equal isscalar isreal iscomplex isrealobj iscomplexobj shape size ndim result_type can_cast promote_types finfo iinfo dtype "
                       "float64 float32 complex128 complex64 int64 int32 bool_ floating complexfloating integer number errstate divmod modf schur lu_factor lu_solve "
                       "polyval interp searchsorted take compress choose select piecewise ix_ indices isin issubdtype array2string angle array_split split gcd lcm "
                       "j0 j1 jn jv jn_zeros gamma factorial isqrt comb fsum remainder frexp isnan isinf isfinite pow "
                       "float int complex bool str".split())

    def __init__(self, name):
        self.__name__ = name

    def __call__(self, *a, **k):
        n = self.__name__
        out = k.pop("out", None)
        last = n.rsplit(".", 1)[-1]
        if last in ("at", "apply_along_axis", "apply_over_axes", "vectorize", "frompyfunc", "fromfunction", "nditer") or any(v for x, v in k.items() if x.startswith("overwrite")):
            raise Unsupported(f"call of {n}: may write to its arguments")
        if n == "numpy.nan_to_num" and a and (k.get("copy", True) is not True or len(a) > 1 and a[1] is not True):
            a[0].set(intern((n,) + tuple(key(x) for x in a) + (key(k),)))
            return a[0]
        ar = 1 if last in self.UNARY else 2 if last in self.BINARY else None
        if ar is not None and len(a) > ar:
            a, out = a[:ar], a[ar]
        elif ar is None and n not in self.MUTATE and last not in self.PURE:
            raise Unsupported(f"call of {n}: not known to be pure")
        if n in self.MUTATE:
            a[0].set(intern((n,) + tuple(key(x) for x in a) + (key(k),)))
            return None
        if n == "numpy.errstate":
            return contextlib.nullcontext()
        if n.startswith("numpy.random") or n in ("numpy.seterr", "numpy.save", "numpy.savez"):
            raise Unsupported(f"call of {n}")
        if n in self.PAIR:
            return tuple(U.app(n, j, *a, **k) for j in range(self.PAIR[n]))
        if n == "numpy.meshgrid":
            return [U.app(n, j, *a, **k) for j in range(len(a))]
        if n == "numpy.shape" and isinstance(a[0], U) and a[0].nd is not None:
            return a[0].shape
        r = U.app(n, *a, **k)
        if n in ("numpy.asarray", "numpy.array", "numpy.copy", "numpy.exp", "numpy.abs", "numpy.zeros_like", "numpy.empty_like") and a and isinstance(a[0], U):
            r.nd = a[0].nd
        if (last in self.ALIAS or last == "array" and k.get("copy", True) is not True) and a and isinstance(a[0], U):
            r.base = (a[0], (n,))
        if out is not None:
            out.set(r.i)
            return out
        return r

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return Fn(f"{self.__name__}.{a}")

    def __or__(self, o): return self
    __ror__ = __or__


class Lib:
    def __init__(self, name, **known):
        self.__dict__["_n"] = name
        self.__dict__.update(known)

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return Fn(f"{self._n}.{a}")


class NDArray:
    pass


class Loop:
    acc = False
    cut = True

    def __init__(self, rt, ident, qual, names, kind, it):
        self.rt, self.names, self.kind, self.it = rt, names, kind, it
        self.key = (qual, ident)

    def start(self, loc):
        c = core.ctx()
        rt = self.rt
        c.trace.append(("head", self.key, rt.snapshot(loc)))
        memo = {}
        out = []
        for n in self.names:
            if n in loc:
                out.append(rt.forget(loc[n], ("loop", self.key, n), memo))
            else:
                out.append(core.Poison(n))
        for n, v in loc.items():
            if n not in self.names and not n.startswith("_rkv_"):
                rt.forget_inside(v, ("loop", self.key, n), memo)
        for i, r in enumerate(rt.roots):
            rt.forget_inside(r, ("loop", self.key, i), memo)
        self.entry = {n for n in self.names if n in loc}
        return tuple(out)

    def tick(self): pass

    def more(self):
        it = self.it
        if isinstance(it, range):
            return core.ctx().free(("more", self.key))
        if isinstance(it, U):
            return core.ctx().free(("more", self.key, it.i))
        raise Unsupported("loop over this iterable")

    def item(self):
        return U(intern(("item", self.key)))

    def back(self, loc):
        core.ctx().trace.append(("back", self.key, self.rt.snapshot({n: v for n, v in loc.items() if n in self.entry or n not in self.names})))
        raise PathEnd()

    def finish(self, loc):
        raise AssertionError

    def done(self): pass


class URuntime(Runtime):
    def __init__(self):
        super().__init__()
        self.roots = []

    def numdiv(self, a, b): return a / b

    def mod(self, a, b):
        if isinstance(a, str):
            return a + "%" + str(key(b) if not isinstance(b, tuple) else tuple(map(str, b)))
        return a % b

    def loop(self, ident, mod, qual, names, kind, it):
        if kind == "for" and not isinstance(it, U) and not (isinstance(it, range) and len(it) > 64):
            return NativeLoop(it)
        return Loop(self, ident, qual, names, kind, it)

    def idiv(self, a, b):
        if isinstance(a, U):
            return a.__itruediv__(b)
        return super().idiv(a, b)

    def range_(self, *a):
        if any(isinstance(x, U) for x in a):
            return U.app("range", *a)
        return range(*a)

    def _minmax(self, a, k, better, native):
        items = list(a[0]) if len(a) == 1 and not isinstance(a[0], U) else list(a)
        if any(isinstance(x, U) for x in items):
            return U.app(native.__name__, *items)
        return native(*a, **k)

    def isinstance_(self, x, c):
        if isinstance(x, U):
            cs = c if isinstance(c, tuple) else c.__args__ if isinstance(c, types.UnionType) else (c,)
            return any(U._rkv_isinstance(x, k) for k in cs)
        if isinstance(c, (Fn, Missing)):
            return False
        if isinstance(c, tuple):
            return any(self.isinstance_(x, k) for k in c)
        return isinstance(x, c)

    def len_(self, x):
        if isinstance(x, TList) and any(isinstance(y, U) and INV[y.i][0] == "prefix" for y in list(x)[:1]):
            return U.app("len", tuple(x))
        return super().len_(x)

    def sum_(self, x, *a):
        x = list(x)
        return sum(x, *a)

    # --- state
    def rk(self, v):
        """an object of the package under verification"""
        return hasattr(v, "__dict__") and type(v).__module__.split(".")[0] == "rkstiff" and not isinstance(v, type)

    def forget(self, v, path, memo):
        """an unknown value of the same kind"""
        if isinstance(v, U):
            if id(v) not in memo:
                memo[id(v)] = U(intern(("var", path)), v.nd)
            return memo[id(v)]
        if isinstance(v, (int, float, complex)):
            return U(intern(("var", path)))
        if v is None:
            return None if core.ctx().free(("none", path)) else U(intern(("var", path)))
        if isinstance(v, str) or callable(v):
            return v
        if isinstance(v, tuple):
            return tuple(self.forget(x, path + (i,), memo) for i, x in enumerate(v))
        self.forget_inside(v, path, memo)
        return v

    def forget_inside(self, v, path, memo):
        """replace everything reachable and mutable by unknowns, in place"""
        if isinstance(v, core.Poison) or id(v) in memo:
            return
        if isinstance(v, U):
            memo[id(v)] = v
            v.i, v.base = intern(("var", path)), None
        elif isinstance(v, list):
            memo[id(v)] = v
            v[:] = [U(intern(("prefix", path)))]
        elif isinstance(v, dict):
            memo[id(v)] = v
            if v:
                raise Unsupported("dictionary state across a loop or call")
        elif self.rk(v):
            memo[id(v)] = v
            for f, x in list(vars(v).items()):
                if self.skip(f, x):
                    continue
                if isinstance(x, (U, list, dict)) or self.rk(x):
                    self.forget_inside(x, path + (f,), memo)
                else:
                    vars(v)[f] = self.forget(x, path + (f,), memo)

    def skip(self, f, x):
        return isinstance(x, (str, type)) or callable(x) or type(x).__name__ in ("Log", "FakeLogger")

    def snapshot(self, loc):
        seen = {}
        d = {n: self.canon(v, seen) for n, v in sorted(loc.items()) if not n.startswith("_rkv_")}
        d["<roots>"] = [self.canon(r, seen) for r in self.roots]
        return d

    def canon(self, v, seen):
        if isinstance(v, U):
            return ("u", v.i)
        if isinstance(v, core.Poison):
            return "poison"
        if v is None or isinstance(v, (bool, int, float, complex, str)):
            return (type(v).__name__, repr(v))
        if id(v) in seen:
            return ("seen", seen[id(v)])
        seen[id(v)] = len(seen)
        if isinstance(v, (list, tuple)):
            return (type(v).__name__.replace("TList", "list"), tuple(self.canon(x, seen) for x in v))
        if isinstance(v, dict):
            return ("dict", tuple((str(k), self.canon(x, seen)) for k, x in v.items()))
        if type(v).__name__ in ("Log", "FakeLogger"):
            return "logger"
        if self.rk(v):
            return ("obj", type(v).__name__, tuple((f, self.canon(x, seen)) for f, x in sorted(vars(v).items())))
        if isinstance(v, BaseException):
            return ("exception", type(v).__name__, str(v))
        return ("other", type(v).__name__, getattr(v, "__name__", ""))

    def builtins(self):
        b = super().builtins()
        b["sum"] = self.sum_
        return b


def var(name, nd=None):
    return U(intern(("var", (name,))), nd)


def world(logging):
    finfo = lambda *a: Shim("finfo", eps=U(intern(("eps",))), tiny=U(intern(("tiny",))), max=U(intern(("maxfloat",))))
    np = Lib("numpy", pi=U(intern(("pi",))), inf=float("inf"), nan=U(intern(("nan",))), ndarray=NDArray, newaxis=None, finfo=finfo,
             complex128=complex, float64=typelike(float, lambda x=0: U.app("float64", x)), linalg=Lib("numpy.linalg"), fft=Lib("numpy.fft"),
             e=U(intern(("e",))), bool_=bool)
    sl = Lib("scipy.linalg")
    sh = {"numpy": np, "numpy.linalg": np.linalg, "scipy.linalg": sl, "scipy": Shim("scipy", linalg=sl), "scipy.fft": Lib("scipy.fft"),
          "scipy.special": Lib("scipy.special"), "logging": logging, "math": Lib("math", pi=U(intern(("pi",))), inf=float("inf")),
          "sys": Missing("sys"), "os": Missing("os")}
    return World(sh, URuntime())
