"""Contracts of solver construction and solver-type detection (C24).

The real constructors run on an operator of symbolic shape (0 to 4 dimensions, every extent a symbolic integer)
whose entries are uninterpreted; acceptance, refusal and the resulting object are compared with the specification
on every path.
"""
import itertools
import z3
from . import core, parallel
from .core import Unsupported, SInt, mkint
from .config import ConfigRuntime, numpy_scalar_shim, math_shim, operator_shim
from .extract import World
from .runtime import Shim, logging_shim, Missing
from .smodel import MODS, CS, AS
from .xr import XR

COUNT = itertools.count()


class Op:
    """an array of which only the shape and the identity of its values are known"""

    def __init__(self, shape, val=None, dtype="?"):
        self.shape = tuple(shape)
        self.val = val if val is not None else next(COUNT)
        self.dtype = dtype

    @property
    def ndim(self): return len(self.shape)

    @property
    def size(self):
        n = 1
        for d in self.shape:
            n = n * d if not (isinstance(n, SInt) and isinstance(d, SInt)) else mkint(n.e * d.e)
        return n

    def _rkv_len(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def astype(self, *a, copy=True, **k):
        return self if copy is False and core.ctx().free(("samedtype", self.val)) else Op(self.shape, self.val)

    def copy(self): return Op(self.shape, self.val)

    def view(self): return Op(self.shape, self.val)

    @property
    def T(self): return Op(self.shape[::-1])

    def _any(self, *a, **k):
        return Op(self.shape)
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __pow__ = __abs__ = _any

    def __setitem__(self, i, v):
        self.val = next(COUNT)

    def __bool__(self): raise Unsupported("truth value of an array")

    def __eq__(self, o): raise Unsupported("comparison of arrays")
    __hash__ = None

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported(f"use of .{a} of the operator in a constructor")

    def __format__(self, s): return "<array>"
    def __repr__(self): return f"<array {self.shape}>"

    @staticmethod
    def _rkv_isinstance(x, k):
        return k is NDArray or k is object


class NDArray:
    pass


class ConstructRuntime(ConfigRuntime):
    def isinst1(self, x, k):
        return super().isinst1(x, k)


def tup(s):
    if isinstance(s, (tuple, list)):
        return tuple(s)
    return (s,)


def world():
    np = numpy_scalar_shim()

    def cond(a, *x):
        c = core.ctx()
        if len(a.shape) != 2:
            raise Unsupported("condition number of this array")
        if ("cond", a.val) in c.data:
            return c.data[("cond", a.val)]
        k = c.choose(("cond", a.val), ["fin", "pinf"])
        if k == "pinf":
            r = XR("pinf", None, True)
        else:
            r = XR.new("cond", True)
            c.assume(r.e >= 1)
        c.data["cond"] = c.data[("cond", a.val)] = r
        return r

    def asarr(a, *x, **k):
        if isinstance(a, Op):
            return a
        raise Unsupported("conversion to an array")
    la = Shim("numpy.linalg", cond=cond, eig=lambda a: (Op(a.shape[:1]), Op(a.shape)), inv=lambda a: Op(a.shape), norm=lambda *a, **k: XR.new("norm", True),
              eigvals=lambda a: Op(a.shape[:1]))
    vars(np).update(zeros=lambda shape, *a, **k: Op(tup(shape)), empty=lambda shape, *a, **k: Op(tup(shape)), ones=lambda shape, *a, **k: Op(tup(shape)),
                    full=lambda shape, *a, **k: Op(tup(shape)),
                    zeros_like=lambda a, *x, **k: Op(a.shape), empty_like=lambda a, *x, **k: Op(a.shape), ones_like=lambda a, *x, **k: Op(a.shape),
                    asarray=asarr, array=lambda a, *x, **k: Op(asarr(a).shape, a.val), ascontiguousarray=asarr, asanyarray=asarr,
                    shape=lambda a: a.shape, ndim=lambda a: len(a.shape), size=lambda a: a.size, ndarray=NDArray, linalg=la,
                    iscomplexobj=lambda a: core.ctx().free(("complex", a.val)), isrealobj=lambda a: not core.ctx().free(("complex", a.val)),
                    complex128=complex, copy=lambda a: Op(a.shape, a.val), diag=lambda a: Op(a.shape * 2 if len(a.shape) == 1 else a.shape[:1]),
                    eye=lambda n, *a, **k: Op((n, n)), identity=lambda n, *a: Op((n, n)), conj=lambda a: Op(a.shape), exp=lambda a: Op(a.shape))
    sh = {"numpy": np, "numpy.linalg": la, "scipy.linalg": Missing("scipy.linalg"), "scipy": Missing("scipy"), "logging": logging_shim(),
          "math": math_shim(), "operator": operator_shim(), "sys": Missing("sys"), "os": Missing("os")}
    return World(sh, ConstructRuntime())


def nl(u):
    raise Unsupported("a constructor calls the nonlinear function")


def operator(c, nd, tag, low=0):
    dims = []
    for i in range(nd):
        d = SInt(c.fresh(f"{tag}{i}", "Int"))
        c.assume(d.e >= low)
        dims.append(d)
    return Op(dims)


def good(name, op):
    """z3 condition / bool: the documented shapes"""
    if op.ndim == 1:
        return True
    if op.ndim == 2 and name != "IF45DP":
        return op.shape[0].e == op.shape[1].e
    return False


class Foreign:
    """not a solver, but answers every attribute of one"""

    def __init__(self, t):
        self.solver_type = t
        self.t = self.u = ()
        self.lin_op = self.nl_func = self.logger = None
        self.config = self.etd_config = self.MAX_LOOPS = self.epsilon = t and 50

    def step(self, *a): pass
    evolve = reset = _update_stages = _reset = set_loglevel = step


def one(name, nd, diagonalize):
    rep = core.Report()
    fn = f"{MODS[name]}.{name}.__init__"
    what = f"{name}{'(diagonalize=True)' if diagonalize else ''} with a {nd}-D operator"

    def run(c):
        c.data["nonlinear"] = True
        w = world()
        C = getattr(w.load(MODS[name]), name)
        T = w.load("rkstiff.util.solver_type").SolverType
        kw = {"diagonalize": True} if diagonalize else {}
        try:
            prev = C(operator(c, 1, "m"), nl)       # an earlier solver must not matter
        except (core.Control, Unsupported):
            raise
        except Exception as x:  # noqa: BLE001
            core.genuine(x)
            c.prove(f"{name} with a 1-D operator: a documented shape is accepted", False, fn, f"raised {type(x).__name__}: {x}")
            return
        c.data.pop("cond", None)
        op = operator(c, nd, "n", 1 if diagonalize else 0)
        val = op.val
        g = good(name, op)
        cond = None
        try:
            s = C(op, nl, **kw)
        except (core.Control, Unsupported):
            raise
        except Exception as x:  # noqa: BLE001 - the code's own exception
            core.genuine(x)
            cond = c.data.get("cond")
            sing = diagonalize and cond is not None and (cond.kind != "fin" or c.valid(cond.e > z3.RealVal(10) ** 16))
            c.prove(f"{what}: a documented shape is accepted", True if sing else (z3.Not(g) if not isinstance(g, bool) else not g), fn,
                    f"raised {type(x).__name__}: {x};")
            c.prove(f"{what}: refusal raises ValueError", isinstance(x, ValueError), fn, f"raised {type(x).__name__}: {x}")
            return
        c.prove(f"{what}: other shapes are refused", g, fn)
        if g is False or not c.valid(g):
            return
        if not isinstance(s.lin_op, Op):
            raise Unsupported("the operator is stored in another form")
        c.prove(f"{what}: the operator is kept", s.lin_op.val == val and len(s.lin_op.shape) == nd, fn)
        c.prove(f"{what}: the nonlinear function is kept", s.nl_func is nl, fn)
        c.prove(f"{what}: t and u start empty", isinstance(s.t, list) and isinstance(s.u, list) and len(s.t) == 0 and len(s.u) == 0, fn)
        c.prove(f"{what}: t and u are the solver's own", s.t is not s.u and s.t is not prev.t and s.u is not prev.u, fn)
        want = T.ADAPTIVE_STEP if name in AS else T.CONSTANT_STEP
        for nm, x in (("the solver", s), ("an earlier solver", prev)):
            c.prove(f"{what}: solver_type of {nm}", x.solver_type is want, f"{MODS[name]}.{name}.solver_type", f"{x.solver_type}")
            c.prove(f"{what}: detected type of {nm}", T.from_solver(x) is want, "rkstiff.util.solver_type.SolverType.from_solver")
        s.t.append(0)
        s.u.append(0)
        c.prove(f"{what}: a new solver starts empty", C(op, nl, **kw).t == [] and prev.t == [] and prev.u == [], fn)
    try:
        core.explore(run, rep)
    except Unsupported as e:
        rep.unsupported.append((what, str(e)))
    return rep


def detect():
    rep = core.Report()
    fn = "rkstiff.util.solver_type.SolverType.from_solver"

    def run(c):
        w = world()
        T = w.load("rkstiff.util.solver_type").SolverType
        A, B = w.load("rkstiff.solveras").BaseSolverAS, w.load("rkstiff.solvercs").BaseSolverCS
        for x in (None, 0, 1, True, "IF4", "ADAPTIVE_STEP", object(), T, T.CONSTANT_STEP, T.ADAPTIVE_STEP, A, B, [], (), {}, nl,
                  Foreign(T.ADAPTIVE_STEP), Foreign(T.CONSTANT_STEP), Foreign(None), w.load("rkstiff.solveras").SolverConfig()):
            for cn, m in MODS.items() if x is None else ():
                C = getattr(w.load(m), cn)
                try:
                    T.from_solver(C)
                    ok = False
                except TypeError:
                    ok = True
                c.prove("detection refuses a solver class with TypeError", ok, fn, cn)
            try:
                r = T.from_solver(x)
                d = f"gives {r}"
                ok = False
            except TypeError:
                ok, d = True, ""
            except (core.Control, Unsupported):
                raise
            except Exception as e:  # noqa: BLE001
                core.genuine(e)
                ok, d = False, f"raises {type(e).__name__}: {e}"
            c.prove("detection refuses anything but a solver with TypeError", ok, fn, f"{x!r} {d}")
        # solvers written by a user on the two base classes
        for base, want in ((A, T.ADAPTIVE_STEP), (B, T.CONSTANT_STEP)):
            U = type("UserSolver", (base,), {"_reset": lambda s: None, "_update_stages": lambda s, u, h: u, "_q": lambda s: 4})
            u = U(operator(c, 1, "w"), nl)
            u.config = u.etd_config = u.MAX_LOOPS = u.note = 1        # attributes of the user's own
            c.prove("detection of a user-defined solver", T.from_solver(u) is want and u.solver_type is want, fn, base.__name__)
        c.prove("the two stepping types differ; CS and AS are aliases", T.CONSTANT_STEP is not T.ADAPTIVE_STEP and T.CS is T.CONSTANT_STEP
                and T.AS is T.ADAPTIVE_STEP, fn)
    try:
        core.explore(run, rep)
    except Unsupported as e:
        rep.unsupported.append(("SolverType.from_solver", str(e)))
    return rep


ASSUME = [
    "the operator is a numpy array of 0 to 4 dimensions with any extents (>= 1 with diagonalize; its entries are uninterpreted; more dimensions behave as the code's "
    "len(shape) tests do and are covered by the 3-D and 4-D cases)",
    "contract of numpy: zeros/astype/eig/inv/cond have the documented shapes; cond is >= 1 or inf",
    "diagonalize=True additionally refuses (ValueError) a matrix whose condition number exceeds 1e16, as documented",
    "detection is checked on every solver class, on user-defined subclasses of both base classes and on a finite list of kinds of non-solvers",
]


def dispatch(kind, *a):
    return detect() if kind == "detect" else one(*a)


def verify(pid, tier, rep):
    jobs = [("detect",)]
    for n in MODS:
        for nd in range(5):
            jobs.append(("one", n, nd, False))
            if n in ("IF34", "ETD34", "ETD35"):
                jobs.append(("one", n, nd, True))
    for a in ASSUME:
        rep.assume(a)
    for r in parallel.run(dispatch, jobs):
        rep.merge(r)
