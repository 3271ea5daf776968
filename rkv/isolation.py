"""C15: solver instances do not share state; configuration objects are used as given.

For every pair of solver kinds: the mutable objects reachable from two solvers (and their default configurations) are disjoint,
no operation changes module, class or default-argument state, interleaved operations give what each solver gives alone, the
given configuration objects are the ones used, are not modified, and later changes to them are read.
"""
import types
from fractions import Fraction as Fr
from . import core, parallel, ring, arr, history as H, stepctl
from .core import Unsupported
from .ring import El, sym
from .arr import Arr, Buf, NDIM
from .runtime import FakeLogger, Shim, Missing
from .smodel import NLFunc, world, stepsize, operator, state, build, etdconfig, Refused, SPECS, AS, CS, IS_ETD, MODS
from .history import Rep, guarded, run_step, samestate, samev, same_attempt, describe, Stop

INERT = (str, bytes, int, float, complex, bool, type(None), Fr, El, NLFunc, FakeLogger, Shim, Missing, type, types.ModuleType, types.BuiltinFunctionType,
         property, classmethod, staticmethod, type(Ellipsis), type(NotImplemented))
COMMON = ("epsilon", "incr_f", "decr_f", "safety_f", "adapt_cutoff", "minh")
ETDCOMMON = ("modecutoff", "contour_points", "contour_radius")


def reach(root):
    """mutable objects reachable from a solver: {id: (path, object)}"""
    out, seen = {}, set()
    stack = [("solver", root)]
    while stack:
        p, v = stack.pop()
        if isinstance(v, INERT) or id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, Arr):
            if id(v.buf) not in out:
                out[id(v.buf)] = (p, v.buf)
            continue
        if isinstance(v, Buf):
            out[id(v)] = (p, v)
            continue
        if isinstance(v, types.MethodType):
            stack += [(p + ".self", v.__self__), (p + ".func", v.__func__)]
            continue
        if isinstance(v, types.FunctionType):
            for i, c in enumerate(v.__closure__ or ()):
                try:
                    stack.append((f"{p}.cell{i}", c.cell_contents))
                except ValueError:
                    pass
            stack += [(p + ".defaults", v.__defaults__), (p + ".kwdefaults", v.__kwdefaults__)]
            continue
        if isinstance(v, tuple) or isinstance(v, frozenset):
            stack += [(f"{p}[{i}]", x) for i, x in enumerate(v)]
            continue
        if isinstance(v, dict):
            out[id(v)] = (p, v)
            stack += [(f"{p}[{k!r}]", x) for k, x in v.items()] + [(f"{p} key", k) for k in v]
            continue
        if isinstance(v, (list, set)):
            out[id(v)] = (p, v)
            stack += [(f"{p}[{i}]", x) for i, x in enumerate(v)]
            continue
        out[id(v)] = (p, v)
        d = getattr(v, "__dict__", None)
        if d is not None:
            stack += [(f"{p}.{k}", x) for k, x in d.items()]
        for c in type(v).__mro__:
            for k in getattr(c, "__slots__", ()) if not isinstance(getattr(c, "__slots__", ()), str) else (c.__slots__,):
                if hasattr(v, k):
                    stack.append((f"{p}.{k}", getattr(v, k)))
    return out


def print_of(v, depth=6, seen=None):
    """comparable picture of a value"""
    seen = seen or set()
    if isinstance(v, (str, bytes, int, float, complex, bool, type(None), Fr)):
        return repr(v)
    if isinstance(v, El):
        return ("El", v.key())
    if isinstance(v, Arr):
        return ("Arr", id(v.buf), str(v.buf.val))
    if id(v) in seen or depth == 0:
        return id(v)
    seen = seen | {id(v)}
    if isinstance(v, dict):
        return (id(v),) + tuple((repr(k)[:80], print_of(x, depth - 1, seen)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return (id(v) if isinstance(v, list) else 0,) + tuple(print_of(x, depth - 1, seen) for x in v)
    if isinstance(v, (set, frozenset)):
        return (id(v),) + tuple(sorted(repr(x) for x in v))
    if isinstance(v, types.FunctionType):
        return (id(v), print_of(v.__defaults__, depth - 1, seen), print_of(v.__kwdefaults__, depth - 1, seen), tuple((k, print_of(x, depth - 1, seen)) for k, x in v.__dict__.items()),
                tuple(cell(c, depth, seen) for c in v.__closure__ or ()))
    if H.ownclass(v) and not isinstance(v, (FakeLogger,)):
        return (id(v), print_of(vars(v), depth - 1, seen))
    return id(v)


def cell(c, depth, seen):
    try:
        return print_of(c.cell_contents, depth - 1, seen)
    except ValueError:
        return None


def globalstate(w):
    """module attributes, class attributes and default arguments of the package"""
    out = {}
    for name, m in list(w.mods.items()):
        for k, v in list(vars(m).items()):
            if k in ("__builtins__", "_rkv_") or isinstance(v, types.ModuleType):
                continue
            if isinstance(v, type):
                if v.__module__ == name:
                    for a, x in list(vars(v).items()):
                        if a in ("__dict__", "__weakref__", "_abc_impl", "__doc__", "__annotations__"):
                            continue
                        if isinstance(x, property):
                            for n, f in (("get", x.fget), ("set", x.fset)):
                                out[f"{name}.{k}.{a}.{n}"] = print_of(f)
                        elif isinstance(x, (staticmethod, classmethod)):
                            out[f"{name}.{k}.{a}"] = print_of(x.__func__)
                        else:
                            out[f"{name}.{k}.{a}"] = print_of(x)
            else:
                out[f"{name}.{k}"] = print_of(v)
    return out


class Side:
    """one of the two solvers with its own problem"""

    def __init__(self, w, cls, rep, i):
        self.w, self.cls, self.rep, self.i = w, cls, rep, i
        self.L = operator(rep, f"lam{i}")
        self.nl = NLFunc(f"N{i}")
        self.cfg = self.etd = None

    def configs(self):
        if self.cls in AS:
            self.cfg = self.w.load("rkstiff.solveras").SolverConfig()
        if self.cls in IS_ETD:
            self.etd = etdconfig(self.w, *self.scalars())

    def scalars(self):
        c = core.ctx()
        i = self.i
        c.assume(ring.z3sym(f"mc{i}") > 0)
        c.assume(ring.z3sym(f"mc{i}") <= 1)
        c.assume(ring.z3sym("M") >= 2)
        c.assume(ring.z3sym(f"R{i}") > 0)
        return sym(f"mc{i}", positive=True), sym("M", positive=True, isint=True), sym(f"R{i}", positive=True)

    def make(self, raw=False):
        self.s = build(self.w, self.cls, self.rep, self.L, self.nl, self.etd, self.cfg)
        if self.cls in IS_ETD and self.etd is None and not raw:
            # the default configuration, with arbitrary values assigned by the caller
            e = self.s.etd_config
            e.modecutoff, e.contour_points, e.contour_radius = self.scalars()
        return self.s

    def step(self, j, v="acc"):
        u, h = state(f"u{self.i}{j}"), stepsize(f"h{self.i}{j % 2}")
        if self.cls in CS:
            return [(u, h, (self.s.step(u, h), None))]
        return run_step(self.s, u, h, [v], stop_at=1)[1]

    def evolve(self, j):
        u, h, T = state(f"u{self.i}{j}"), stepsize(f"h{self.i}0"), stepsize("span")
        from .history2 import fake_evolve
        r, end, ent = fake_evolve(core.ctx(), None or SideW(self), self.s, u, El.of(0), T, h, 1)
        return [("evolve", end, [(x[0], x[1]) for x in ent], list(self.s.t), list(self.s.u))]


class SideW:
    def __init__(self, side):
        self.cls = side.cls


def sched(a, b):
    """operations in the order they are made: (side, operation, number)"""
    return [(a, "make", 0), (b, "make", 0), (a, "step", 0), (b, "step", 0), (a, "rej", 1), (b, "step", 1), (a, "step", 1), (b, "rej", 2), (b, "reset", 0),
            (a, "step", 2), (b, "step", 3), (a, "reset", 0), (b, "step", 4), (a, "evolve", 3), (b, "step", 5), (a, "step", 4), (b, "evolve", 6), (a, "step", 5)]


def perform(side, op, j):
    if op == "make":
        side.make()
        return []
    if op == "reset":
        side.s.reset()
        return []
    if op == "evolve":
        return side.evolve(j)
    return side.step(j, "rej" if op == "rej" else "acc")


def sameout(x, y):
    if x[0] == "evolve" if isinstance(x[0], str) else False:
        return x[1] == y[1] and len(x[2]) == len(y[2]) and all(samestate(p[0], q[0]) and samev(p[1], q[1]) for p, q in zip(x[2], y[2])) \
            and len(x[3]) == len(y[3]) and all(samev(p, q) for p, q in zip(x[3], y[3])) and len(x[4]) == len(y[4]) and all(samestate(p, q) for p, q in zip(x[4], y[4]))
    return same_attempt(x, y)


def setup(c):
    from .history2 import setup as su
    su(c, ">c")
    c.assume(ring.z3sym("cond") <= 500)


def disjoint(rp, a, b):
    fn = rp.fn
    ra, rb = reach(a.s), reach(b.s)
    both = [f"{ra[k][0]} = {rb[k][0]}" for k in set(ra) & set(rb)]
    cfgshared = [n for n in ("config", "etd_config") if hasattr(a.s, n) and getattr(a.s, n) is getattr(b.s, n, None)]
    rp(f"{fn}: the two solvers have configuration objects of their own", not cfgshared, f"shared: {cfgshared}")
    if both and not cfgshared:
        raise Unsupported(f"objects reachable from both solvers: {sorted(both)[:4]}")
    rp(f"{fn}: no mutable object is reachable from both solvers", not both, str(both[:3]))


def fresh(c, rp, A, B):
    """two solvers constructed with default configurations"""
    w = world()
    for m in (MODS[A[0]], MODS[B[0]]):
        w.load(m)
    a, b = Side(w, *A, 1), Side(w, *B, 2)
    a.make()
    b.make()
    disjoint(rp, a, b)


def pair(c, rp, A, B, defaults):
    """two solvers in one process"""
    fn = rp.fn
    w = world()
    for m in ("rkstiff.solveras", "rkstiff.solvercs", "rkstiff.etd", MODS[A[0]], MODS[B[0]]):
        w.load(m)
    a, b = Side(w, *A, 1), Side(w, *B, 2)
    if not defaults:
        a.configs()
        b.configs()
    g0 = globalstate(w)
    got = []
    for side, op, j in sched(a, b):
        got.append((side.i, op, perform(side, op, j)))
    g1 = globalstate(w)
    # each alone, in a process of its own
    alone = {}
    for i, spec in ((1, A), (2, B)):
        w2 = world()
        s = Side(w2, *spec, i)
        if not defaults:
            s.configs()
        alone[i] = [perform(s, op, j) for sd, op, j in sched(a, b) if sd.i == i]
    ia = {1: iter(alone[1]), 2: iter(alone[2])}
    for i, op, out in got:
        ref = next(ia[i])
        if op in ("make", "reset"):
            continue
        ok = len(out) == len(ref) and all(sameout(x, y) for x, y in zip(out, ref))
        rp(f"{fn}: {'solver one' if i == 1 else 'solver two'} gives the same results whatever the other does", ok,
           describe(out[0], ref[0]) if op not in ("evolve",) and out and ref else f"{out} vs {ref}"[:600])
    disjoint(rp, a, b)
    ch = sorted(k for k in set(g0) | set(g1) if g0.get(k) != g1.get(k))
    if ch:
        raise Unsupported(f"module or class state changes: {ch[:4]}")
    rp(f"{fn}: no operation changes module, class or default-argument state", not ch, str(ch[:3]))


def defaults_fresh(c, rp, cls, rep):
    """changing a default configuration does not change the defaults of another solver"""
    fn = rp.fn
    w = world()
    a, b = Side(w, cls, rep, 1), Side(w, cls, rep, 2)
    a.make(raw=True)
    for n, names in (("config", COMMON), ("etd_config", ETDCOMMON)):
        if not hasattr(a.s, n):
            continue
        cf = getattr(a.s, n)
        old = {p: getattr(cf, p) for p in names}
        for p in names:
            new = changed(p, old[p])
            setattr(cf, p, new)
        if not hasattr(b, "s"):
            b.make(raw=True)
        other = getattr(b.s, n)
        rp(f"{fn}: a solver made later has the default {n}", all(samev(getattr(other, p), old[p]) for p in names),
           str({p: (getattr(other, p), old[p]) for p in names}))


def given(c, rp, cls, rep):
    """configuration objects passed in are used as given, not modified, and later changes are read"""
    fn = rp.fn
    w = world()
    a = Side(w, cls, rep, 1)
    a.configs()
    pic = {n: print_of(x) for n, x in (("config", a.cfg), ("etd_config", a.etd)) if x is not None}
    a.make()
    for n, x in (("config", a.cfg), ("etd_config", a.etd)):
        if x is None:
            continue
        names = COMMON if n == "config" else ETDCOMMON
        other = w.load("rkstiff.solveras").SolverConfig() if n == "config" else w.load("rkstiff.etd").ETDConfig()
        rp(f"{fn}: the given {n} is the one the solver shows", all(samev(getattr(getattr(a.s, n), p), getattr(x, p)) for p in names), "")
    for j, op in ((0, "step"), (1, "rej"), (0, "reset"), (2, "step"), (3, "evolve"), (4, "step")):
        perform(a, op, j)
    for n, x in (("config", a.cfg), ("etd_config", a.etd)):
        if x is not None:
            rp(f"{fn}: the given {n} is not modified", print_of(x) == pic[n], f"{print_of(x)} was {pic[n]}"[:400])
    # later changes
    for n, x in (("config", a.cfg), ("etd_config", a.etd)):
        if x is None:
            continue
        for p in (COMMON if n == "config" else ETDCOMMON):
            old = getattr(x, p)
            new = changed(p, old)
            setattr(x, p, new)
            rp(f"{fn}: a later change of {n}.{p} reaches the solver", samev(getattr(getattr(a.s, n), p), getattr(x, p)), f"{getattr(getattr(a.s, n), p)} instead of {new}")


def changed(p, old):
    """another valid value of a setting"""
    if p == "contour_points":
        core.ctx().assume(ring.z3sym("M2") >= 2)
        return old * 2 if isinstance(old, int) else sym("M2", positive=True, isint=True)
    return old * 2 if p in ("epsilon", "incr_f", "minh", "contour_radius") else old / 2


class Spy:
    """records which attributes of ETDConfig objects are read"""

    def __init__(self, cls):
        self.reads = set()
        self.on = False
        spy = self
        orig = cls.__getattribute__

        def ga(o, name):
            if spy.on and not name.startswith("__"):
                spy.reads.add(name.lstrip("_"))
            return orig(o, name)
        type.__setattr__(cls, "__getattribute__", ga)


def etd_read(c, rp, cls, rep, mode):
    """after a change of the ETD settings the next evolve uses the new ones: it reads what a new solver reads"""
    from .history2 import setup as su
    fn = rp.fn
    su(c, mode)
    c.assume(ring.z3sym("cond") <= 500)
    c.data["order3_force"] = mode[0]
    w = world()
    E = w.load("rkstiff.etd").ETDConfig
    spy = Spy(E)

    def run(fresh):
        a = Side(w, cls, rep, 1)
        a.configs()
        spy.reads, spy.on = set(), fresh
        a.make()
        if not fresh:
            a.step(0)
            spy.on = True
            a.s.reset()
        a.step(0)
        spy.on = False
        return set(spy.reads) & set(ETDCOMMON)
    want, have = run(True), run(False)
    rp(f"{fn}: the coefficients after a change of the ETD settings and reset are computed from the new settings", want <= have, f"not read again: {sorted(want - have)}")


def job_(rep, kind, A, B):
    fn = f"{MODS[A[0]]}.{A[0]}[{A[1]}]"
    if kind.startswith("pair"):
        fn += f" with {B[0]}[{B[1]}]"
    rp = Rep(fn)

    def go(c):
        try:
            if kind in ("<c", ">c"):
                return etd_read(c, rp, *A, kind)
            setup(c)
            if kind == "pair":
                pair(c, rp, A, B, False)
            elif kind == "pairfresh":
                fresh(c, rp, A, B)
            elif kind == "pairdef":
                pair(c, rp, A, B, True)
            elif kind == "defaults":
                defaults_fresh(c, rp, *A)
            else:
                given(c, rp, *A)
        except Refused:
            return
    core.explore(go, rp.r, max_paths=2000, budget=120.0)
    if not rp.r.obl:
        raise Unsupported("no path completes")
    rep.merge(rp.r)


def job(kind, A, B):
    return guarded(job_)(kind, A, B)


def job_step(q):
    """SolverConfig: with values assigned after construction, step decides as with values given at construction"""
    rep = core.Report()
    for pid in ("C04", "C05"):
        first = stepctl.one(pid, q)
        if first.refuted() or first.unknown() or first.unsupported:
            rep.unsupported.append((f"{stepctl.FN}[q={q}]", f"the {pid} contracts are not discharged, so later changes cannot be compared"))
            continue
        late = stepctl.one(pid, q, late=True)
        for n in list(late.obl):
            late.obl["configuration changed after construction: " + n] = late.obl.pop(n)
        late.functions = {f: {"configuration changed after construction: " + n for n in s} for f, s in late.functions.items()}
        rep.merge(late)
    return rep


def dispatch(kind, *a):
    return job_step(*a) if kind == "late" else job(kind, *a)


def jobs():
    diag = [s for s in SPECS if s[1] == "diag"]
    js = [("late", 4), ("late", 5)]
    js += [("pair", a, b) for a in diag for b in diag if a <= b]
    js += [("pair", s, s) for s in SPECS if s[1] != "diag"]
    js += [("pairdef", s, s) for s in SPECS] + [("pairfresh", a, b) for a in SPECS for b in SPECS if a < b]
    full = [s for s in SPECS if s[1] == "full"]
    js += [("pair", a, b) for a, b in zip(full, full[1:])]
    js += [("defaults", s, None) for s in diag if s[0] in AS or s[0] in IS_ETD]
    js += [("given", s, None) for s in SPECS if s[0] in AS or s[0] in IS_ETD]
    js += [(m, s, None) for s in SPECS if s[0] in IS_ETD for m in (">c", "<c")]
    js.sort(key=lambda j: j[0] != "late")
    return parallel.run(dispatch, js)
