"""Contracts of the logging helpers and neutrality of logging (C16).

1. Level handling: the real helper functions and solver constructors run against a faithful stand-in for the logging
   module (named loggers with parents, levels, handler lists) with symbolic integer levels, every spelling of the level
   names, and unknown names represented by an unknown string.
2. Neutrality: a two-run contract.  Constructors, coefficient updates, stages, step and evolve run on uninterpreted
   terms (uterm.py) once per log level; under the same decisions on data every run must give the same result, exception,
   stored data and state.  Loops are compared one iteration from an arbitrary common state, callees by their contract.
"""
import builtins
import itertools
import z3
from . import core, parallel, uterm
from .core import Unsupported, SInt, mkint
from .config import ConfigRuntime, numpy_scalar_shim, math_shim, operator_shim
from .construct import world as cworld, operator
from .extract import World
from .runtime import Shim, Missing
from .smodel import MODS, AS, CS, SPECS
from .uterm import U, var
from .xr import XR

LEVELS = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}
OTHER = {"WARN": 30, "FATAL": 50, "NOTSET": 0}
HELP = "rkstiff.util.loghelper"


# ---------------------------------------------------------------- stand-in for logging
class Handler:
    def __init__(self, *a, **k):
        self.level, self.formatter = 0, None

    def setFormatter(self, f): self.formatter = f
    def setLevel(self, lv): self.level = check_level(lv)
    def addFilter(self, f): pass
    def set_name(self, n): self.name = n
    def get_name(self): return getattr(self, "name", None)
    def close(self): pass
    def flush(self): pass


class NullHandler(Handler):
    pass


class Formatter:
    def __init__(self, *a, **k): pass


def check_level(lv):
    if isinstance(lv, (SInt, int)):
        return lv
    if isinstance(lv, Str):
        raise ValueError(f"Unknown level: {lv!r}")
    if isinstance(lv, str):
        if lv in LEVELS:
            return LEVELS[lv]
        if lv in OTHER:
            return OTHER[lv]
        raise ValueError(f"Unknown level: {lv!r}")
    raise TypeError(f"Level not an integer or a valid string: {lv!r}")


class Log:
    def __init__(self, reg, name, level=0):
        self.reg, self.name, self.level = reg, name, level
        self.handlers, self.propagate, self.disabled, self.filters = [], True, False, []

    @property
    def parent(self):
        n = self.name
        while n and n != "root":
            n = n.rpartition(".")[0]
            if n in self.reg.loggers:
                return self.reg.loggers[n]
        return None if self is self.reg.root else self.reg.root

    @property
    def root(self): return self.reg.root

    def setLevel(self, lv): self.level = check_level(lv)

    def getEffectiveLevel(self):
        p = self
        while p is not None:
            if p.level != 0:
                return p.level
            p = p.parent
        return 0

    def isEnabledFor(self, lv): return lv >= self.getEffectiveLevel()

    def hasHandlers(self):
        p = self
        while p is not None:
            if p.handlers:
                return True
            p = p.parent if p.propagate else None
        return False

    def addHandler(self, h):
        if not any(h is x for x in self.handlers):
            self.handlers.append(h)

    def removeHandler(self, h):
        self.handlers[:] = [x for x in self.handlers if x is not h]

    def getChild(self, s): return self.reg.get(f"{self.name}.{s}")
    def addFilter(self, f): self.filters.append(f)

    def _emit(self, lv, msg="", *a, **k):
        if not isinstance(self.getEffectiveLevel(), SInt) and lv >= self.getEffectiveLevel():
            try:                # the real handler formats the record (and swallows errors)
                str(msg) % a if a else str(msg)
            except core.Control:
                raise
            except Exception:  # noqa: BLE001
                pass

    def debug(self, *a, **k): self._emit(10, *a)
    def info(self, *a, **k): self._emit(20, *a)
    def warning(self, *a, **k): self._emit(30, *a)
    warn = warning

    def error(self, *a, **k): self._emit(40, *a)
    exception = error

    def critical(self, *a, **k): self._emit(50, *a)
    fatal = critical

    def log(self, lv, *a, **k):
        if not isinstance(lv, SInt):
            self._emit(lv, *a)

    def __format__(self, s): return "<logger>"


class Registry:
    def __init__(self):
        self.loggers = {}
        self.root = Log(self, "root", 30)

    def get(self, name=None):
        if not name or name == "root":
            return self.root
        if not isinstance(name, str):
            raise TypeError("A logger name must be a string")
        return self.loggers.setdefault(name, Log(self, name))


class LogModule:
    """the logging module; members not modelled make the function undecided, names that do not exist are absent"""

    def __init__(self, reg):
        self.getLogger = reg.get
        self.Logger, self.StreamHandler, self.NullHandler, self.Handler, self.Formatter = Log, Handler, NullHandler, Handler, Formatter
        self.root = reg.root
        self.BASIC_FORMAT = "%(levelname)s:%(name)s:%(message)s"
        self.getLevelName = self._level_name
        self.getLevelNamesMapping = lambda: {**LEVELS, **OTHER}
        self._nameToLevel = {**LEVELS, **OTHER}
        self._levelToName = {v: k for k, v in LEVELS.items()} | {0: "NOTSET"}
        self._checkLevel = check_level
        self.raiseExceptions = True
        self.reg = reg
        for k, v in {**LEVELS, **OTHER}.items():
            setattr(self, k, v)

    def _level_name(self, x):
        if isinstance(x, str):
            return {**LEVELS, **OTHER}.get(x, f"Level {x}")
        if isinstance(x, Str):
            return f"Level {x}"
        if isinstance(x, SInt):
            for k, v in LEVELS.items():
                if x == v:
                    return k
            return "Level <n>"
        return {v: k for k, v in LEVELS.items()}.get(x, f"Level {x}")

    def __getattr__(self, a):
        import logging as real
        if hasattr(real, a):
            return Missing(f"logging.{a}")
        raise AttributeError(f"module 'logging' has no attribute '{a}'")


# ---------------------------------------------------------------- unknown strings
class Str:
    """an unknown string that is no level name in any case; `exact` while only its case has been changed"""

    def __init__(self, name="s", exact=True):
        self.name, self.exact = name, exact

    def _case(self): return Str(self.name, self.exact)
    upper = lower = casefold = title = capitalize = swapcase = _case

    def _free(self, what):
        return core.ctx().free(("str", self.name, what))

    def _cut(self, *a, **k):
        n = core.ctx().choose(("str", self.name, "cut"), ["unknown"] + list(LEVELS))
        return Str(self.name + "'", False) if n == "unknown" else n
    strip = lstrip = rstrip = removeprefix = removesuffix = replace = __getitem__ = translate = _cut

    def split(self, *a): raise Unsupported("splitting an unknown level name")

    def startswith(self, p): return self._free(("startswith", p))
    def endswith(self, p): return self._free(("endswith", p))
    def isdigit(self): return self._free("isdigit")
    isnumeric = isdecimal = isdigit
    def isalpha(self): return self._free("isalpha")
    def isupper(self): return self._free("isupper")
    def __contains__(self, p): return self._free(("contains", p))

    def __eq__(self, o):
        if isinstance(o, Str):
            return o is self or o.name == self.name and self.exact and o.exact
        if isinstance(o, str):
            if o.upper() in LEVELS or not o:
                return False
            return self._free(("eq", o))
        return False

    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(("Str", self.name))

    def __add__(self, o): raise Unsupported("concatenation with an unknown string")
    __radd__ = __add__
    def __len__(self): raise Unsupported("length of an unknown string")
    def __bool__(self): return not self._free("empty")

    def _rkv_int(self):
        if self._free("isdigit") or self._free("int"):
            return SInt(core.ctx().fresh("n", "Int"))
        raise ValueError("invalid literal for int()")

    @staticmethod
    def _rkv_isinstance(x, k): return getattr(k, "_rkv_type", k) in (str, object)
    def __format__(self, s): return "<str>"
    def __repr__(self): return "<str>"
    __str__ = __repr__


class Marker:
    """a non-integer attribute of the logging module"""

    def __repr__(self): return "<non-integer attribute>"


def getattr_(o, n, *d):
    if isinstance(n, Str):
        if isinstance(o, LogModule):
            kinds = ["absent", "text"]          # upper-case names of the module: level numbers and BASIC_FORMAT
            k = core.ctx().choose(("attr", n.name), kinds)
            if k == "text":
                return "%(levelname)s"
            if d:
                return d[0]
            raise AttributeError("module 'logging' has no attribute '<str>'")
        raise Unsupported("attribute named by an unknown string")
    return builtins.getattr(o, n, *d)


def hasattr_(o, n):
    if isinstance(n, Str):
        try:
            getattr_(o, n)
            return True
        except AttributeError:
            return False
    return builtins.hasattr(o, n)


class LogRuntime(ConfigRuntime):
    def builtins(self):
        b = super().builtins()
        b["getattr"], b["hasattr"] = getattr_, hasattr_
        st = b.get("str", str)
        from .runtime import typelike
        b["str"] = typelike(str, lambda *a: a[0] if a and isinstance(a[0], Str) else str(*a))
        return b

    def isinstance_(self, x, c):
        if isinstance(x, str):
            cs = c if isinstance(c, tuple) else getattr(c, "__args__", None) or (c,)
            if any(getattr(k, "_rkv_type", None) is str for k in cs):
                return True
        return super().isinstance_(x, c)


def lworld():
    w = cworld()
    reg = Registry()
    w.runtime = LogRuntime()
    w.shims["logging"] = LogModule(reg)
    w.load("rkstiff")
    return w, reg


def spellings(n):
    """every upper/lower-case spelling"""
    return ["".join(p) for p in itertools.product(*[(ch.lower(), ch.upper()) for ch in n])]


def nl(u):
    raise Unsupported("nonlinear function called")


def isint(v):
    return isinstance(v, (int, SInt)) and not isinstance(v, bool)


def same(a, b):
    if not isint(a):
        return False
    x = a.e if isinstance(a, SInt) else z3.IntVal(a)
    y = b.e if isinstance(b, SInt) else z3.IntVal(b)
    return z3.simplify(x == y) if not z3.is_true(z3.simplify(x == y)) else True


def refuses(c, name, fn, call):
    try:
        call()
    except (core.Control, Unsupported):
        raise
    except Exception as x:  # noqa: BLE001 - the code's own exception
        core.genuine(x)
        c.prove(f"{name}: an unknown level name raises ValueError", isinstance(x, ValueError), fn, f"raised {type(x).__name__}: {x}")
        return
    c.prove(f"{name}: an unknown level name raises ValueError", False, fn, "it was accepted")


def works(c, name, fn, call):
    try:
        return True, call()
    except (core.Control, Unsupported):
        raise
    except Exception as x:  # noqa: BLE001 - the code's own exception
        core.genuine(x)
        c.prove(f"{name}: does not raise", False, fn, f"raised {type(x).__name__}: {x}")
        return False, None


def helpers(kind):
    """setup_logger, set_log_level: levels of every form"""
    rep = core.Report()

    def level(c, lv):
        if lv == "int":
            n = SInt(c.fresh("level", "Int"))
            c.assume(n.e >= 0)
            return n, n
        return lv, LEVELS[lv.upper()]

    def run(lv):
        def go(c):
            w, reg = lworld()
            m = w.load(HELP)
            v, want = level(c, lv)
            for pre in (None, "ERROR"):
                nm = f"rkstiff.x{pre}"
                if pre:
                    m.setup_logger(nm, pre)
                n = "setup_logger"
                ok, lg = works(c, n, f"{HELP}.{n}", lambda: m.setup_logger(nm, v))
                if ok:
                    c.prove(f"{n}: returns the logger of that name", lg is reg.get(nm), f"{HELP}.{n}")
                    c.prove(f"{n}: the level is the numeric level", same(reg.get(nm).level, want), f"{HELP}.{n}", f"level {reg.get(nm).level} for {lv!r};")
                    c.prove(f"{n}: exactly one handler", len(reg.get(nm).handlers) == 1, f"{HELP}.{n}")
                lg = reg.get("some.logger")
                lg.setLevel(40)
                n = "set_log_level"
                ok, _ = works(c, n, f"{HELP}.{n}", lambda: m.set_log_level(lg, v))
                if ok:
                    c.prove(f"{n}: the level is the numeric level", same(lg.level, want), f"{HELP}.{n}", f"level {lg.level} for {lv!r};")
        core.explore(go, rep)

    def bad(s):
        def go(c):
            w, reg = lworld()
            m = w.load(HELP)
            lv = Str() if s is None else s
            lg = m.setup_logger("rkstiff.y", "ERROR")
            for n, call in (("setup_logger", lambda: m.setup_logger("rkstiff.y", lv)), ("set_log_level", lambda: m.set_log_level(lg, lv))):
                refuses(c, n, f"{HELP}.{n}", call)
                c.prove(f"{n}: a refused level leaves the level alone", same(lg.level, 40), f"{HELP}.{n}", f"level {lg.level};")
            fresh = reg.get("rkstiff.fresh")
            refuses(c, "setup_logger", f"{HELP}.setup_logger", lambda: m.setup_logger("rkstiff.fresh", lv))
            c.prove("setup_logger: a refused level leaves the level alone", same(fresh.level, 0), f"{HELP}.setup_logger")
        core.explore(go, rep)
    try:
        if kind == "bad":
            for s in [None] + BAD:
                bad(s)
        else:
            for lv in ["int"] if kind == "int" else spellings(kind):
                run(lv)
    except Unsupported as e:
        rep.unsupported.append((f"{HELP} {kind}", str(e)))
    return rep


BAD = ["", " ", "BOGUS", "debugg", "debug ", " INFO", "Level 10", "10", "0x10", "BASIC_FORMAT", "basic_format", "Logger", "getLogger", "handlers", "root",
       "raiseExceptions", "D", "CRIT", "ERR", "TRACE", "VERBOSE", "INFO\n", "DEBUG,INFO", "None", "True"]


def solver_levels(name):
    rep = core.Report()
    fn = f"{MODS[name]}.{name}.__init__"

    def create(c, w, C, **k):
        return C(operator(c, 1, "n", 1), nl, **k)

    def good(lv):
        def go(c):
            w, reg = lworld()
            C = getattr(w.load(MODS[name]), name)
            v, want = (LEVELS[lv.upper()],) * 2 if False else (lv, LEVELS.get(lv.upper())) if isinstance(lv, str) else (None, None)
            if lv == "int":
                v = want = SInt(c.fresh("level", "Int"))
                c.assume(v.e >= 0)
            foreign = c.choose("foreign handler", ["no", "yes"])
            if foreign == "yes":
                reg.get(f"rkstiff.{name}").addHandler(Handler())
            up = [len(reg.root.handlers), len(reg.get("rkstiff").handlers)]
            ok, s = works(c, name, fn, lambda: create(c, w, C, loglevel=v))
            if not ok:
                return
            lg = reg.get(f"rkstiff.{name}")
            c.prove(f"{name}: the logger is named rkstiff.{name}", s.logger is lg and s.logger.name == f"rkstiff.{name}", fn, f"{s.logger.name}")
            c.prove(f"{name}: the logger has the numeric level", same(s.logger.level, want), fn, f"level {s.logger.level} for {lv!r};")
            c.prove(f"{name}: exactly one handler", len(s.logger.handlers) == 1, fn, f"{len(s.logger.handlers)}")
            mem = module_state(w)
            for i in range(3):
                s2 = create(c, w, C, loglevel=["ERROR", 10, "debug"][i])
                c.prove(f"{name}: exactly one handler after further solvers", len(lg.handlers) == 1 and s2.logger is lg, fn, f"{len(lg.handlers)}")
                c.prove(f"{name}: a later solver sets its level", same(lg.level, [40, 10, 10][i]), fn, f"level {lg.level};")
            s.set_loglevel("ERROR")
            ok, _ = works(c, f"{name}.set_loglevel", "rkstiff.solver.BaseSolver.set_loglevel", lambda: s.set_loglevel(v))
            if ok:
                c.prove(f"{name}.set_loglevel: the logger has the numeric level", same(lg.level, want), "rkstiff.solver.BaseSolver.set_loglevel",
                        f"level {lg.level} for {lv!r};")
            c.prove(f"{name}: exactly one handler after set_loglevel", len(lg.handlers) == 1 and s.logger is lg, fn)
            c.prove(f"{name}: no handler is added to the parent loggers", up == [len(reg.root.handlers), len(reg.get("rkstiff").handlers)], fn)
            # induction over the number of solvers: one more construction reproduces the registry and the module state
            one, hs = list(lg.handlers), module_state(w)
            create(c, w, C, loglevel="debug")
            if not (len(one) == len(lg.handlers) and all(a is b for a, b in zip(one, lg.handlers)) and hs == module_state(w)):
                raise Unsupported("another solver leaves other logging state behind: the number of handlers is not covered by induction")
            rep.add(f"{name}: one more solver leaves handlers and module state unchanged (induction step)", core.PROVED, fn)
        core.explore(go, rep)

    def bad(s):
        def go(c):
            w, reg = lworld()
            C = getattr(w.load(MODS[name]), name)
            lv = Str() if s is None else s
            x = create(c, w, C, loglevel="ERROR")
            refuses(c, f"{name}.set_loglevel", "rkstiff.solver.BaseSolver.set_loglevel", lambda: x.set_loglevel(lv))
            c.prove(f"{name}.set_loglevel: a refused level leaves the level alone", same(x.logger.level, 40), "rkstiff.solver.BaseSolver.set_loglevel")
            refuses(c, name, fn, lambda: create(c, w, C, loglevel=lv))
            c.prove(f"{name}: a refused level leaves the level alone", same(x.logger.level, 40), fn)
            c.prove(f"{name}: still exactly one handler", len(x.logger.handlers) == 1, fn)
        core.explore(go, rep)

    def sub(c):
        w, reg = lworld()
        C = getattr(w.load(MODS[name]), name)
        D = type("Mine", (C,), {"__qualname__": "Outer.Mine", "__module__": "user.code"})
        x = create(c, w, D)
        c.prove(f"{name}: a subclass has the logger of its own name", x.logger.name == "rkstiff.Mine" and len(x.logger.handlers) == 1, fn, x.logger.name)
        y = create(c, w, C)
        c.prove(f"{name}: the default level is WARNING", same(y.logger.level, 30), fn)
    try:
        for lv in ["int"] + [f(n) for n in LEVELS for f in (str.upper, str.lower, str.capitalize, str.swapcase)] + ["wArNiNg", "DeBuG"]:
            good(lv)
        for s in [None] + BAD:
            bad(s)
        core.explore(sub, rep)
    except Unsupported as e:
        rep.unsupported.append((f"{name} log levels", str(e)))
    return rep


def module_state(w):
    """module and class level data of the package (shallow)"""
    out = []
    for mn, m in sorted(w.mods.items()):
        for k, v in sorted(vars(m).items()):
            if k.startswith("__") or k == "_rkv_":
                continue
            if isinstance(v, (list, dict, set)):
                out.append((mn, k, len(v), repr(v)[:300]))
            elif isinstance(v, (int, float, str, bool)) or v is None:
                out.append((mn, k, repr(v)))
            elif isinstance(v, type) and v.__module__.startswith("rkstiff"):
                for a, x in sorted(vars(v).items()):
                    if isinstance(x, (list, dict, set)) and not a.startswith("__"):
                        out.append((mn, k, a, len(x), repr(x)[:300]))
                    elif isinstance(x, (int, float, str, bool)):
                        out.append((mn, k, a, repr(x)))
    return out


# ---------------------------------------------------------------- neutrality
POLICIES = [30, 1, 10, 15, 20, 25, 35, 40, 45, 50, 60]


class NL:
    __name__ = "nl"

    def __call__(self, v, *a, **k):
        if a or k:
            raise Unsupported("call of the nonlinear function with other arguments")
        return U.app("nl", v)


def make_solver(name, rep_, level):
    reg = Registry()
    w = uterm.world(LogModule(reg))
    w.load("rkstiff")
    C = getattr(w.load(MODS[name]), name)
    L = var("L", 1 if rep_ == "diag" else 2)
    kw = {"diagonalize": True} if rep_ == "eig" else {}
    f = NL()
    return w, (lambda: C(L, f, loglevel=level, **kw)), L


def stub_stages(w, s, op):
    """contracts of _update_stages and (for evolve) step: an unknown function of the solver state and its arguments, on result and state"""
    rt = w.runtime
    cls = type(s)
    n = [0]

    def _update_stages(self, u, h):
        pre = uterm.intern(("state", str(rt.snapshot({"u": u, "h": h}))))
        n[0] += 1
        for i, r in enumerate(rt.roots):
            rt.forget_inside(r, ("stages", pre, i), {})
        if cls.__name__ in AS:
            return U.app("unew", pre, u, h), U.app("err", pre, u, h)
        return U.app("unew", pre, u, h)
    cls._update_stages = _update_stages
    if op != "evolve":
        return

    def step(self, u, h):
        pre = uterm.intern(("step", str(rt.snapshot({"u": u, "h": h}))))
        for i, r in enumerate(rt.roots):
            rt.forget_inside(r, ("step", pre, i), {})
        if core.ctx().free(("step fails", pre)):
            e = (self.SolverError if cls.__name__ in AS else AssertionError)("step failed")
            e._rkv_contract = True
            raise e
        if cls.__name__ in AS:
            return U.app("unew", pre, u, h), U.app("hdone", pre, u, h), U.app("hnext", pre, u, h)
        return U.app("unew", pre, u, h)
    cls.step = step


OPS = ["construct", "stages", "step", "evolve", "reset"]


def scenario(name, rep_, op, level):
    """list of (decisions, outcome) over all paths of one operation at one log level"""
    outs = []

    def run(c):
        w, ctor, L = make_solver(name, rep_, level)
        rt = w.runtime
        if op == "construct":
            try:
                s = ctor()
                r = ("ok", rt.canon(s, {}))
            except (core.Control, Unsupported):
                raise
            except Exception as x:  # noqa: BLE001 - an outcome
                core.genuine(x)
                r = ("raise", type(x).__name__, str(x))
            return c.trace + [r, ("args", rt.canon(L, {}))]
        try:
            s = ctor()
        except ValueError:
            raise PathEndDone()
        rt.roots = [s]
        c.trace.clear()
        rt.forget_inside(s, ("init",), {})
        if op in ("step", "evolve"):
            stub_stages(w, s, op)
        u = var("u0", 1)
        try:
            if op == "stages":
                r = s._update_stages(u, var("h"))
            elif op == "step":
                r = s.step(u, var("h"))
            elif op == "reset":
                r = s.reset()
            elif name in AS:
                k = {"h_init": var("h")} if c.free("h_init given") else {}
                r = s.evolve(u, var("t0"), var("tf"), store_data=c.free("store_data"), store_freq=var("freq"), **k)
            else:
                r = s.evolve(u, var("t0"), var("tf"), var("h"), store_data=c.free("store_data"), store_freq=var("freq"))
            r = ("return", rt.canon(r, {}))
        except (core.Control, Unsupported):
            raise
        except Exception as x:  # noqa: BLE001 - an outcome
            core.genuine(x)
            r = ("raise", type(x).__name__, str(x))
        return c.trace + [r, ("t", rt.canon(s.t, {})), ("u", rt.canon(s.u, {})), ("args", rt.canon(u, {}), rt.canon(L, {})),
                          ("state", rt.snapshot({}))]

    class PathEndDone(core.PathEnd):
        pass
    rep = core.Report()
    for r, c in core.explore(run, rep, max_paths=6000, budget=100):
        outs.append((dict(c.atoms), r[1] if r[0] == "ok" else list(c.trace)))
    return outs


def compatible(a, b):
    if len(a) > len(b):
        a, b = b, a
    return all(b.get(k, v) == v for k, v in a.items())


def neutral(name, rep_, op):
    rep = core.Report()
    fn = f"{MODS[name]}.{name}" + {"construct": ".__init__", "stages": "._update_stages", "reset": ".reset"}.get(op, "." + op)
    what = f"{name}/{rep_} {op}: outcome independent of the log level"
    try:
        ref = scenario(name, rep_, op, POLICIES[0])
        index = {tuple(sorted(map(repr, d.items()))): o for d, o in ref}
        rep.paths += len(ref)
        for lv in POLICIES[1:]:
            cur = scenario(name, rep_, op, lv)
            rep.paths += len(cur)
            for d, o in cur:
                k = tuple(sorted(map(repr, d.items())))
                cands = [index[k]] if k in index else [o2 for d2, o2 in ref if compatible(d, d2)]
                if not cands:
                    raise Unsupported("a path at one log level has no counterpart at another")
                for o2 in cands:
                    if strip(o) == strip(o2):
                        rep.add(what, core.PROVED, fn, "symbolic execution")
                    else:
                        m, private = differ(o2, o)
                        if private:
                            raise Unsupported(f"log level {lv} changes only internal state: {m}")
                        rep.add(what, core.REFUTED, fn, "symbolic execution", 0.0, f"log level {lv} against {POLICIES[0]}: {m}; decisions {d}")
    except Unsupported as e:
        rep.unsupported.append((what, str(e)))
    return rep


def strip(o):
    return repr(o)


def flat(x, path=""):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from flat(v, f"{path}.{k}")
    elif isinstance(x, (list, tuple)):
        if len(x) == 3 and x[0] == "obj":
            for f, v in x[2]:
                yield from flat(v, f"{path}.{f}")
        else:
            for i, v in enumerate(x):
                yield from flat(v, f"{path}[{i}]")
    else:
        yield path, x


def differ(a, b):
    """(description, whether only private state holding a plain number or text differs)"""
    fa, fb = dict(flat(a)), dict(flat(b))
    d = [k for k in list(fa) + [k for k in fb if k not in fa] if fa.get(k, "<absent>") != fb.get(k, "<absent>")]
    private = all("._" in k for k in d)
    return "; ".join(f"{k}: {show(fa.get(k, '<absent>'))} / {show(fb.get(k, '<absent>'))}" for k in d[:4]), private


def show(x):
    if isinstance(x, int) and 0 <= x < len(uterm.INV):
        return str(uterm.INV[x])[:120]
    return str(x)[:120]


ASSUME = [
    "stand-in for the logging module: named loggers with dotted parents, levels, handler lists; records are formatted and dropped",
    "neutrality: numpy, scipy and arithmetic are arbitrary (uninterpreted) pure functions; the nonlinear function is pure; views are "
    "tracked from view to base only; log levels compared: 1, 10, 15, ..., 60 against WARNING (tests against other thresholds are not "
    "distinguished)",
    "unknown level names: one symbolic string that equals no level name in any case, and a list of near misses; the aliases "
    "WARN, FATAL and NOTSET are outside the contract",
]


def dispatch(kind, *a):
    return {"helpers": helpers, "solver": solver_levels, "neutral": neutral}[kind](*a)


def verify(pid, tier, rep):
    jobs = [("neutral", n, r, op) for n, r in SPECS for op in OPS if op not in ("step", "evolve", "reset") or r == "diag"]
    jobs = [("helpers", k) for k in list(LEVELS) + ["int", "bad"]] + [("solver", n) for n in MODS] + jobs
    for a in ASSUME:
        rep.assume(a)
    for r in parallel.run(dispatch, jobs):
        rep.merge(r)
