"""C06, C07, C08, C15: the solver state machine.

The real solver code is run (by extraction) from *template states*: every field of the solver object is either what a new
solver holds, what a reference run (a new solver after one attempt with the last state and step size) holds, or junk.  The
templates are inferred (a field that does not keep its relation becomes junk) and closed under every operation, so that
what is proved of one operation from a template state holds after every history.
"""
import types
from fractions import Fraction as Fr
from . import core, parallel, ring, arr
from .core import Unsupported, PathEnd, PROVED, REFUTED
from .ring import El, sym
from .arr import Arr, Buf, ONE, NDIM, vsame, isnum
from .smodel import (world, NLFunc, scalars, stepsize, operator, state, build, etdconfig, Refused, SPECS, AS, CS, IS_ETD, MODS, REPS, ASSUME)
from .schemes import add

SKIP = {"logger", "nl_func", "_update_stages", "_compute_s", "step", "config", "etd_config"}


class Boom(Exception):
    """raised by the user's nonlinear function"""


# ---------------------------------------------------------------- object state as leaves
def ownclass(v):
    return getattr(type(v), "__module__", "").split(".")[0] == "rkstiff" and hasattr(v, "__dict__") and not isinstance(v, type)


def leaves(obj, skip=SKIP):
    """{path: (container, key, value)} of the mutable state of a solver"""
    out = {}
    seen = set()

    def one(cont, key, path, v):
        if isinstance(v, (types.FunctionType, types.MethodType, types.BuiltinFunctionType, types.ModuleType, type)) or callable(v) and not isinstance(v, Arr):
            return
        if ownclass(v) and not hasattr(type(v), "__members__"):
            walk(v, path)
        elif isinstance(v, dict):
            for k in list(v):
                one(v, k, f"{path}[{k!r}]", v[k])
            out[path + ".len"] = (None, None, len(v))
        elif isinstance(v, (list, tuple)):
            out[path + ".len"] = (None, None, len(v))
            for i, x in enumerate(v):
                one(v if isinstance(v, list) else None, i, f"{path}[{i}]", x)
        else:
            out[path] = (cont, key, v)

    def walk(o, pre):
        if id(o) in seen:
            return
        seen.add(id(o))
        for k, v in list(vars(o).items()):
            if k not in skip:
                one(o, k, f"{pre}.{k}" if pre else k, v)
    walk(obj, "")
    return out


def put(leaf, v):
    cont, key, _ = leaf
    if cont is None:
        raise Unsupported("state kept in a tuple")
    if isinstance(cont, (list, dict)):
        cont[key] = v
    else:
        vars(cont)[key] = v


def samev(a, b):
    if isinstance(a, Arr) or isinstance(b, Arr):
        if not (isinstance(a, Arr) and isinstance(b, Arr)) or a.dims != b.dims or not a.present or not b.present:
            return False
        if a.isop:
            return a.val.same(b.val)
        return vsame(a.val, b.val) and (a.space == b.space or a.space is None or b.space is None or not a.val)
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isnum(a) and isnum(b):
        if isinstance(a, float) and a != a:
            return isinstance(b, float) and b != b
        return El.of(a).same(El.of(b))
    if a is None or b is None:
        return a is b
    return a is b or (type(a) is type(b) and isinstance(a, (str, int)) and a == b)


def samestate(a, b):
    return isinstance(a, Arr) and isinstance(b, Arr) and a.dims == b.dims and vsame(a.val, b.val) and a.space == b.space


def junklike(v, tag, cache):
    """an arbitrary value of the kind of v (same dimensions; aliases of v stay aliases)"""
    if isinstance(v, Arr):
        if not v.present:
            raise Unsupported("selection kept as state")
        if v.buf not in cache:
            s = sym(f"junk_{tag}_{len(cache)}")
            if v.isop:
                val = s
            elif v.val and not arr.ones_only(v.val):
                val = {f"junk_{tag}_{len(cache)}": El.of(1)}
            else:
                val = {ONE: s}
            cache[v.buf] = Buf(val)
        return Arr(v.dims, None, v.space, v.k, buf=cache[v.buf])
    if isinstance(v, bool):
        return core.ctx().free(("junk", tag))
    if isnum(v):
        return sym(f"jnum_{tag}", positive=True)
    if v is None:
        return None
    raise Unsupported(f"state of type {type(v).__name__} cannot be generalised")


# ---------------------------------------------------------------- scripted runs
class World_:
    """one extracted package with the problem (operator, nonlinearity, settings) shared by all solvers of a scenario"""

    def __init__(self, cls, rep, lam="lam"):
        self.cls, self.rep = cls, rep
        self.w = world()
        self.L, self.nl = operator(rep, lam), NLFunc()
        self.etd = etdconfig(self.w, *scalars()) if cls in IS_ETD else None

    def new(self):
        return build(self.w, self.cls, self.rep, self.L, self.nl, self.etd)


class Hook:
    """wraps the attempts of a solver object and scripts the controller's verdicts"""

    def __init__(self, s, script, before=None, after=None, fake=0):
        self.s, self.script, self.n = s, script, 0
        self.fake = fake       # the first attempts return arbitrary values
        self.before, self.after = before, after
        self.attempts = []
        self.nscore = 0
        vars(s).pop("_update_stages", None)
        self.real = s._update_stages
        s._update_stages = self.attempt
        if not hasattr(type(s), "_compute_s"):
            raise Unsupported("the controller has no _compute_s")
        s._compute_s = self.score

    def attempt(self, u, h, *a, **k):
        i = self.n
        self.n += 1
        if self.before is not None:
            r = self.before(i, u, h)
            if r is not None:
                u, h = r
        # the caller's accept decisions reach the stages only through the object
        if i < self.fake:
            res = (state(f"fake{i}", owner="solver"), state(f"fakeerr{i}", owner="solver"))
        else:
            res = self.real(u, h, *a, **k)
        self.attempts.append((u, h, res))
        if self.after is not None:
            self.after(i, u, h, res)
        return res

    def score(self, *a, **k):
        v = self.script(self.nscore)
        self.nscore += 1
        return {"acc": Fr(2), "one": Fr(1), "rej": Fr(1, 2), "nan": float("nan")}[v]

    def off(self):
        for n in ("_update_stages", "_compute_s"):
            vars(self.s).pop(n, None)


class Stop(core.Control):
    """end of a scripted run at a chosen point"""


def run_step(s, u, h, script, stop_at=None, before=None, fake=0):
    """step(u, h) with scripted verdicts; stops before attempt number stop_at. Returns (result or None, attempts)"""
    def bf(i, x, y):
        if stop_at is not None and i == stop_at:
            raise Stop()
        return before(i, x, y) if before is not None else None
    hk = Hook(s, script if callable(script) else (lambda i: script[min(i, len(script) - 1)]), bf, fake=fake)
    try:
        r = s.step(u, h)
    except Stop:
        r = None
    except RuntimeError as e:
        # the controller gave up (too many attempts, minimum step): the last attempt was a rejected one
        if stop_at is not None and hk.n < stop_at:
            raise PathEnd() from e
        r = None
    finally:
        hk.off()
    return r, hk.attempts


def run_cs(s, u, h):
    r = s.step(u, h)
    return r, [(u, h, (r, None))]


def same_attempt(a, b):
    """same new state and error estimate"""
    (_, _, (u1, e1)), (_, _, (u2, e2)) = a, b
    return samestate(u1, u2) and ((e1 is None and e2 is None) or samestate(e1, e2))


def describe(a, b):
    (_, _, (u1, e1)), (_, _, (u2, e2)) = a, b
    out = []
    for nm, x, y in (("new state", u1, u2), ("error estimate", e1, e2)):
        if isinstance(x, Arr) and isinstance(y, Arr) and x.present and y.present and not samestate(x, y):
            for k in set(x.val) | set(y.val):
                p, q = x.val.get(k, El()), y.val.get(k, El())
                if not p.same(q):
                    out.append(f"{nm}: coefficient of {k} is {p!r}, a new solver has {q!r}"[:300])
    return "; ".join(out)[:900]


# ---------------------------------------------------------------- templates
class Template:
    """fields that are known to hold what the reference object holds; the others are junk"""

    def __init__(self):
        self.junk = {}        # name of the state class -> set of junk paths
        self.changed = False

    def meet(self, name, s, ref):
        j = self.junk.setdefault(name, set())
        a, b = leaves(s), leaves(ref)
        for p in set(a) | set(b):
            if p in j:
                continue
            if p not in a or p not in b:
                if p.endswith(".len"):
                    raise Unsupported("containers of the solver state grow with its history")
                raise Unsupported(f"solver state {p} exists only in some states")
            if not samev(a[p][2], b[p][2]):
                j.add(p)
                self.changed = True
                core.ctx().data.setdefault("why", {})[p] = (a[p][2], b[p][2])

    def apply(self, name, s):
        cache = {}
        for p in sorted(self.junk.get(name, ())):
            lv = leaves(s).get(p)
            if lv is None:
                continue
            put(lv, junklike(lv[2], p, cache))


VERDICTS = ("acc", "rej", "nan", "one")


def c07_scenario(c, cls, rep, T, rp, fn, full):
    if not full:
        c.data["order3_force"] = ">"
    elif full != "deep":
        c.data["order3_noeq"] = True
        c.data["cond"] = sym("cond", positive=True)
        c.assume(ring.z3sym("cond") >= 1)
        c.assume(ring.z3sym("cond") <= 1000)
    W = World_(cls, rep)
    s = W.new()
    g = stepsize("g")
    hh = c.choose("h", ["new", "same"])
    h = g if hh == "same" else stepsize("h")
    wh = "the same step size" if hh == "same" else "another step size"
    u0 = state("u0")
    if cls in CS:
        un, _ = run_cs(s, u0, g)
        T.apply("acc", s)
        r, a = run_cs(s, un, h)
        ref = W.new()
        r2, b = run_cs(ref, un, h)
        rp(f"{fn}: a step after a step, with {wh}, is that of a new solver", same_attempt(a[0], b[0]), describe(a[0], b[0]))
        T.meet("acc", s, ref)
        return
    v = c.choose("v1", VERDICTS if not full else VERDICTS[:2])
    v2 = c.choose("v2", VERDICTS[:3]) if not full else "acc"
    ref = W.new()
    if v in ("acc", "one"):
        r0, a0 = run_step(s, u0, g, [v])
        un = r0[0]
        T.apply("acc", s)
        what = f"the first attempt after an accepted step, with {wh},"
        r, a = run_step(s, un, h, [v2], stop_at=1)
        r2, b = run_step(ref, un, h, [v2], stop_at=1)
        att = a[0]
    else:
        def before(i, x, y):
            if i == 1:
                T.apply("rej", s)
                rp(f"{fn}: an attempt after a rejected one is made from the same state", samestate(x, u0), f"{x!r}")
                return x, h
        what = f"an attempt after a rejected one, with {wh},"
        r, a = run_step(s, u0, g, [v, v2], stop_at=2, before=before)
        if len(a) < 2:
            rp(f"{fn}: a rejected attempt is followed by another one", False, "step ended")
            return
        r2, b = run_step(ref, u0, h, [v2], stop_at=1)
        att = a[1]
    rp(f"{fn}: {what} is that of a new solver", same_attempt(att, b[0]), describe(att, b[0]))
    if v2 == "acc" and r is not None and r2 is not None:
        ok = samestate(r[0], r2[0]) and r[0] is att[2][0]
        rp(f"{fn}: an accepted step returns the state of its attempt", ok, "")
        if v in ("acc", "one"):
            rp(f"{fn}: step sizes reported by a step after a step are those of a new solver", samev(r[1], r2[1]) and samev(r[2], r2[2]), f"{r[1:]} vs {r2[1:]}")
    T.meet("acc" if v2 == "acc" else "rej", s, ref)


class Rep:
    def __init__(self, fn):
        self.r, self.fn = core.Report(), fn

    def __call__(self, name, ok, detail=""):
        add(self.r, name, bool(ok), self.fn, detail)


CRASH = (ZeroDivisionError, TypeError, ValueError, AttributeError, KeyError, IndexError, AssertionError, NameError, RuntimeError, RecursionError)


def guarded(job):
    def go(*a):
        rep = core.Report()
        try:
            job(rep, *a)
        except Unsupported as e:
            rep.unsupported.append((f"{a}", str(e)))
        except CRASH as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            rep.unsupported.append((f"{a}", f"{type(e).__name__}: {e} ({tb.filename.rsplit('/', 1)[-1]}:{tb.lineno})"))
        return rep
    return go


def settle(scen, T, fn, rounds=30, budget=200.0, **kw):
    """repeat the scenario until the templates are stable; the obligations of the last round count"""
    for _ in range(rounds):
        rp = Rep(fn)
        T.changed = False

        def go(c):
            try:
                return scen(c, rp)
            except Refused:
                return None
        core.explore(go, rp.r, max_paths=6000, budget=budget, **kw)
        if not T.changed:
            return rp.r
    raise Unsupported("state templates did not stabilise")


def job_c07_(rep, cls, kind, tier):
    fn = f"{MODS[cls]}.{cls}[{kind}]"
    T = Template()
    T2 = Template()
    for _ in range(20):
        T2.junk = {k: set(v) for k, v in T.junk.items()}
        r1 = settle(lambda c, rp: c07_scenario(c, cls, kind, T, rp, fn, False), T, fn)
        try:
            r2 = settle(lambda c, rp: c07_scenario(c, cls, kind, T, rp, fn, "deep" if tier == "thorough" else "modes"), T, fn,
                        budget=150.0 if tier == "thorough" else 200.0)
        except Unsupported:
            if tier != "thorough":
                raise
            r2 = settle(lambda c, rp: c07_scenario(c, cls, kind, T, rp, fn, "modes"), T, fn)
        if T2.junk == T.junk:
            break
    rep.merge(r1)
    rep.merge(r2)
    n = {k: len(v) for k, v in T.junk.items()}
    rep.notes.append(f"{fn}: fields without a relation to the last state and step size: {n}")
    if not rep.obl:
        rep.unsupported.append((fn, "no path completes"))


def job_c07(*a):
    return guarded(job_c07_)(*a)


def verify(pid, tier, rep):
    specs = sorted(SPECS, key=lambda s: s[0] not in ("ETD35", "ETD34", "ETD5"))
    if pid == "C07":
        rs = parallel.run(job_c07, [(a, b, tier) for a, b in specs])
    else:
        from . import history2
        rs = history2.jobs(pid)
    for r in rs:
        rep.merge(r)
    for a in ASSUME[:1] + ASSUME[2:3]:
        rep.assume(a)
    rep.assume("step sizes with different symbolic values are different numbers")
