"""Shared set-up of the scheme-domain runs: the extracted package under the array contract models."""
import builtins
from . import core, ring, arr
from .core import Unsupported
from .extract import World
from .runtime import Shim, logging_shim, Missing
from .ring import El, sym
from .arr import Arr, Buf, SchemeRuntime, numpy_shim, np_expm, np_inv, matmul, NDIM, ONE, intern, vsame

CS = {"IF4": "rkstiff.if4", "ETD4": "rkstiff.etd4", "ETD5": "rkstiff.etd5"}
AS = {"IF34": "rkstiff.if34", "ETD34": "rkstiff.etd34", "ETD35": "rkstiff.etd35", "IF45DP": "rkstiff.if45dp"}
MODS = {**CS, **AS}
ORDER = {"IF4": 4, "ETD4": 4, "IF34": 4, "ETD34": 4, "ETD5": 5, "ETD35": 5, "IF45DP": 5}
EORDER = {"IF34": 4, "ETD34": 4, "ETD35": 4, "IF45DP": 5}
REPS = {"IF4": ["diag", "full"], "ETD4": ["diag", "full"], "ETD5": ["diag", "full"], "IF34": ["diag", "full", "eig"],
        "ETD34": ["diag", "full", "eig"], "ETD35": ["diag", "full", "eig"], "IF45DP": ["diag"]}
SPECS = [(c, r) for c in MODS for r in REPS[c]]
IS_ETD = {"ETD4", "ETD5", "ETD34", "ETD35"}

ASSUME = [
    "exact arithmetic: floating-point numbers are treated as the real/complex numbers they stand for (decimal literals as written, "
    "full-precision literals as the simplest rational they round)",
    "contour quadrature: the mean over the M equally spaced contour nodes equals the residue sum (lemmas/contour.lean: error vanishes exponentially in M)",
    "contract of numpy/scipy: exp, expm, inv, eig (L = S diag(eig_vals) S^-1), dot and elementwise operations are exact",
    "one generic component / generic eigenvalue: modes with h*lambda = 0 enter through the obligation that no division by a "
    "quantity vanishing there is made for modes below modecutoff",
]


class NLFunc:
    """the user's nonlinear function: an arbitrary function of the physical state"""

    def __init__(self, tag="N"):
        self.calls = []
        self.tag = tag
        self.on_call = None

    def __call__(self, v, *a, **k):
        if a or k or not isinstance(v, Arr):
            raise Unsupported("call of the nonlinear function with something that is not one state array")
        if v.dims != (NDIM,):
            raise Unsupported("nonlinear function applied to an array of another shape")
        if v.space == "eig" and v.val:
            raise Unsupported("nonlinear function applied to a state in eigen-coordinates")
        i = intern(v.val)
        self.calls.append((i, dict(v.val)))
        v.buf.protect("an array handed to the nonlinear function (which may have returned it)")
        if self.on_call is not None:
            self.on_call(v)
        r = Arr((NDIM,), {(self.tag, i): El.of(1)}, "phys", "c", owner="nl")
        r.buf.protect("an array returned by the nonlinear function")
        return r


def world():
    lin = Shim("scipy.linalg", expm=np_expm, inv=np_inv, solve=lambda a, b: matmul(np_inv(a), b))
    np = numpy_shim()
    sh = {"numpy": np, "numpy.linalg": np.linalg, "scipy.linalg": lin, "scipy": Shim("scipy", linalg=lin),
          "scipy.special": Missing("scipy.special"), "scipy.fft": Missing("scipy.fft"), "logging": logging_shim(), "math": Missing("math"),
          "sys": Missing("sys"), "os": Missing("os")}
    return World(sh, SchemeRuntime())


def scalars(suffix=""):
    """symbolic (modecutoff, contour_points, contour_radius) with their validity as path facts"""
    c = core.ctx()
    mc, M, R = sym("mc" + suffix, positive=True), sym("M", positive=True, isint=True), sym("R" + suffix, positive=True)
    c.assume(ring.z3sym("mc" + suffix) > 0)
    c.assume(ring.z3sym("mc" + suffix) <= 1)
    c.assume(ring.z3sym("M") >= 2)
    c.assume(ring.z3sym("R" + suffix) > 0)
    return mc, M, R


def stepsize(name):
    h = sym(name, positive=True)
    core.ctx().assume(ring.z3sym(name) > 0)
    return h


def operator(rep, name="lam"):
    lam = sym(name)
    if rep == "diag":
        L = Arr((NDIM,), {ONE: lam}, "phys", "?", owner="caller")
    else:
        L = Arr((NDIM, NDIM), lam, ("phys", "phys"), "?", owner="caller")
    L.buf.protect("the caller's linear operator")
    return L


def state(name, owner="caller"):
    u = Arr((NDIM,), {name: El.of(1)}, "phys", "?", owner=owner)
    if owner == "caller":
        u.buf.protect("a state array passed in by the caller")
    return u


class Refused(Exception):
    pass


def build(w, cls, rep, L, nl, etd=None, config=None):
    """construct the solver through its public constructor"""
    m = w.load(MODS[cls])
    kw = {}
    if cls in IS_ETD and etd is not None:
        kw["etd_config"] = etd
    if cls in AS and config is not None:
        kw["config"] = config
    if rep == "eig":
        kw["diagonalize"] = True
    core.ctx().data["pole_inside"] = True if rep == "full" else None
    try:
        return getattr(m, cls)(L, nl, **kw)
    except ValueError as e:
        if rep == "eig" and "cond" in core.ctx().data:
            raise Refused() from e
        raise


def etdconfig(w, mc, M, R):
    E = w.load("rkstiff.etd").ETDConfig
    return E(modecutoff=mc, contour_points=M, contour_radius=R)


def vecof(x, what):
    if not isinstance(x, Arr) or x.dims != (NDIM,) or not x.present:
        raise Unsupported(f"{what} is not a state array")
    return x


def functions(w, names):
    """functions under contract, for the evidence"""
    return names
