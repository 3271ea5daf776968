"""C06 (history independence), C08 (frame) and C15 (isolation) over abstract solver states.

An abstract state says of every field of a solver object whether it holds what a new solver holds ('init'), what a reference
solver (new, after one accepted step with some state and step size) holds ('G'), both, or nothing known ('junk'); whether its
buffer belongs to an array that has been handed out or was passed in ('held'); and which fields share a buffer.  The set of
abstract states is closed under every operation (step, retry inside step, reset, evolve, the later steps of an evolve, with
the nonlinear function raising at any of its calls, and with every verdict of the controller), so it covers every history.
"""
import ast
import functools
import os
from . import core, extract, parallel, ring, arr, history as H
from .core import Unsupported, PathEnd
from .ring import El, sym
from .arr import Arr, Buf, ONE, NDIM
from .smodel import NLFunc, world, stepsize, operator, state, build, etdconfig, scalars, Refused, SPECS, AS, CS, IS_ETD, MODS, ASSUME
from .history import CRASH, World_, Hook, Stop, Boom, Rep, guarded, leaves, put, samev, samestate, junklike, run_step, describe, same_attempt

MAXSTATES = 60
SKIP2 = H.SKIP | {"t", "u"}


# ---------------------------------------------------------------- solver objects <-> abstract states
def fields(s):
    """leaves without the recorded trajectory (which is always replaced by junk)"""
    return leaves(s, SKIP2)


class OldList(list):
    """the recorded trajectory of an earlier run: empty or not, decided when the code looks at it"""
    __slots__ = ("open",)

    def settle(self):
        if getattr(self, "open", False):
            self.open = False
            if core.ctx().choose("trajectory", ["some", "none"]) == "none":
                list.clear(self)
        return self


def _late(name):
    f = getattr(list, name)

    def g(self, *a, **k):
        return f(self.settle(), *a, **k)
    return g


for _n in ("__len__", "__iter__", "__getitem__", "__setitem__", "__delitem__", "__contains__", "__eq__", "__ne__", "__add__", "__iadd__", "__mul__",
           "__reversed__", "append", "extend", "pop", "insert", "copy", "remove", "index", "count", "reverse", "sort"):
    setattr(OldList, _n, _late(_n))
OldList.__bool__ = lambda self: list.__len__(self.settle()) > 0


def junklists(s):
    """an arbitrary recorded trajectory of an earlier run"""
    for n, x in (("t", sym("oldt")), ("u", None)):
        if not isinstance(getattr(s, n, None), list):
            raise Unsupported(f"the recorded {n} is not a list")
        if x is None:
            x = Arr((NDIM,), {"oldu": El.of(1)}, "phys", "c")
            x.buf.protect("a snapshot stored by an earlier run")
        v = OldList([x, x])
        v.open = True
        setattr(s, n, v)


def litof(v):
    """values that are kept exactly in abstract states"""
    return v is None or isinstance(v, (bool, str))


def hold(v):
    return isinstance(v, Arr) and bool(v.buf.frame)


def classify(s, init, cands):
    """abstract state of s relative to a new solver and to the best of the candidate reference solvers"""
    a, b = fields(s), fields(init)
    best = None
    for gl in cands:
        tags, score = {}, 0
        for p in set(a) | set(b) | set(gl):
            if p not in a:
                tags[p] = "absent"
                continue
            v = a[p][2]
            if p.endswith(".len"):
                tags[p] = ("len", v)
                continue
            ei = p in b and samev(v, b[p][2])
            eg = p in gl and samev(v, gl[p][2])
            t = "both" if ei and eg else "init" if ei else "G" if eg else ("lit", v) if litof(v) else "junk"
            if t == "junk" and p not in b and p not in gl:
                raise Unsupported(f"solver state {p} appears and disappears")
            score += (100 if arr.isnum(v) and not isinstance(v, bool) else 1) * (t in ("G", "both"))
            tags[p] = t
        if best is None or score > best[0]:
            best = (score, tags)
    tags = best[1]
    heldp = frozenset(p for p in a if hold(a[p][2]))
    groups = {}
    for p in sorted(a):
        if isinstance(a[p][2], Arr):
            groups.setdefault(id(a[p][2].buf), []).append(p)
    part = frozenset(tuple(g) for g in groups.values() if len(g) > 1)
    return (tuple(sorted(tags.items(), key=str)), heldp, part)


def refsolver(W, u, h):
    """the reference solver: new, then one accepted step"""
    s = W.new()
    if W.cls in CS:
        s.step(u, h)
    else:
        run_step(s, u, h, ["acc"])
    return s


_REF = {}


def clone(gl):
    """copies of field values (sharing of buffers kept)"""
    bufs, out = {}, {}
    for p, (cont, k, v) in gl.items():
        if isinstance(v, Arr):
            if v.buf not in bufs:
                bufs[v.buf] = Buf(dict(v.buf.val) if isinstance(v.buf.val, dict) else v.buf.val)
            v = Arr(v.dims, None, v.space, v.k, buf=bufs[v.buf])
        out[p] = (cont, k, v)
    return out


def reffields(W, u, h):
    """fields of the reference solver (the same on every path with the same mode class and dtype)"""
    c = core.ctx()
    key = (W.cls, W.rep, c.data["order3_force"], c.atoms[("dtype", "complex")], str(sorted(u.val.items(), key=str)), repr(El.of(h).key()))
    if key not in _REF:
        mode = c.data["order3_force"] + ("c" if c.atoms[("dtype", "complex")] else "f")
        hval, uval = El.of(h), dict(u.val)
        got = []

        def go(c2):
            if got:
                return
            setup(c2, mode)
            for n in sorted(hval.syms()):
                if n in ring.REAL:
                    c2.assume(ring.z3sym(n) > 0)
            c2.assume(hval.z3() > 0)
            try:
                W2 = World_(W.cls, W.rep)
                got.append(clone(fields(refsolver(W2, Arr((NDIM,), dict(uval), "phys", "?", owner="caller"), hval))))
            except Refused:
                pass
        core.explore(go, core.Report(), max_paths=64)
        core.CTX = c
        if not got:
            raise Unsupported("no reference run completes")
        _REF[key] = got[0]
    return _REF[key]


def setpath(s, p, v):
    """assign a field by its path (attributes only), creating it where it does not exist"""
    lv = fields(s).get(p)
    if lv is not None:
        return put(lv, v)
    if "[" in p:
        raise Unsupported("containers of the solver state grow with its history")
    o = s
    *pre, last = p.split(".")
    for a in pre:
        o = vars(o).get(a)
        if not H.ownclass(o):
            raise Unsupported(f"solver state {p} exists only in some states")
    vars(o)[last] = v


def delpath(s, p):
    cont, k, _ = fields(s)[p]
    if "[" in p or cont is None:
        raise Unsupported("containers of the solver state grow with its history")
    del vars(cont)[k]


def concretize(W, key, ug, g):
    """a solver object in the abstract state (arbitrary where nothing is known)"""
    tags, heldp, part = key
    s = W.new()
    b = fields(W.new())
    ref = clone(reffields(W, ug, g))
    groups = {p: gr for gr in part for p in gr}
    done = {}
    for p, t in tags:
        if isinstance(t, tuple) and t[0] == "len":
            have = fields(s)
            if p not in have or have[p][2] != t[1]:
                raise Unsupported("containers of the solver state grow with its history")
        elif t == "absent":
            if p in fields(s):
                delpath(s, p)
        elif isinstance(t, tuple):
            setpath(s, p, t[1])
        elif t == "G":
            setpath(s, p, ref[p][2])
        elif t in ("init", "both"):
            continue
        else:
            gr = groups.get(p)
            if gr is not None and gr in done:
                v = done[gr]
            else:
                like = ref[p][2] if p in ref and ref[p][2] is not None else b[p][2] if p in b else None
                if like is None:
                    raise Unsupported(f"solver state {p} cannot be generalised")
                v = junklike(like, p, {})
                if gr is not None:
                    done[gr] = v
            setpath(s, p, v)
    now = fields(s)
    for p in heldp:
        if p in now and isinstance(now[p][2], Arr) and not now[p][2].buf.frame:
            now[p][2].buf.protect("an array that was handed out earlier")
    # sharing of buffers must be that of the abstract state
    gs = {}
    for p in sorted(now):
        if isinstance(now[p][2], Arr):
            gs.setdefault(id(now[p][2].buf), []).append(p)
    have = frozenset(tuple(x) for x in gs.values() if len(x) > 1)
    if have != part:
        raise Unsupported(f"sharing of buffers between fields of the solver cannot be generalised ({sorted(have ^ part)})"[:300])
    junklists(s)
    return s


# ---------------------------------------------------------------- operations
def release(s, r):
    """what the caller holds after a call: returned states and snapshots"""
    xs = list(r) if isinstance(r, list) else [r[0] if isinstance(r, tuple) else r]
    u = getattr(s, "u", [])
    xs += [] if isinstance(u, OldList) and u.open else list(u)
    for x in xs:
        if isinstance(x, Arr):
            x.buf.protect("a state handed out earlier")


class Op:
    """one operation on a solver in an arbitrary abstract state; leaves the resulting state to be classified"""

    def __init__(self, W, c, snap=None):
        self.W, self.c = W, c
        self.snap = snap        # the code has no handlers: what an exception here leaves behind is the present state
        self.n = 0

    def arm(self):
        c = self.c
        self.n = 0

        def on_call(v):
            self.n += 1
            if self.snap is not None:
                self.snap()
            elif self.n <= 9 and not c.free(("boom ends", self.n)):
                raise Boom()
        # 'True' is explored first: the call returns
        self.W.nl.on_call = on_call

    def off(self):
        self.W.nl.on_call = None


def verdicts(c, n):
    return c.choose(("verdict", n), ["acc", "rej", "nan"])


def inject(dst, src):
    """make the object dst hold the state of src (fields only)"""
    a, b = fields(dst), fields(src)
    for p, (cont, k, v) in b.items():
        if p.endswith(".len"):
            if p not in a or a[p][2] != v:
                raise Unsupported("containers of the solver state grow with its history")
            continue
        setpath(dst, p, v)
    for p in a:
        if p not in b and not p.endswith(".len"):
            delpath(dst, p)


OPS = ("step", "retry", "reset", "evolve", "evolve on")


def perform(c, W, key, opname, snap):
    """run one operation; returns (solver, u1, h1)"""
    ug, g = state("ug"), stepsize("g")
    A = concretize(W, key, ug, g) if key is not None else W.new()
    u1 = state("u1")
    h1 = g if key is not None and c.choose("h1", ["new", "same"]) == "same" else stepsize("h1")
    used = [(ug, g)] if key is not None else []
    used.append((u1, h1))
    s = A if opname not in ("retry", "evolve on") else W.new()
    op = Op(W, c, (lambda: snap(s, used)) if snap is not None else None)
    try:
        if opname == "reset":
            s.reset()
        elif opname == "step":
            op.arm()
            if W.cls in CS:
                release(s, s.step(u1, h1))
            else:
                r, a = run_step(s, u1, h1, lambda i: verdicts(c, i), stop_at=1)
                if r is not None:
                    release(s, r)
        elif opname == "retry":
            def before(i, x, y):
                if i == 1:
                    inject(s, A)
                    op.arm()
                    used[-1] = (x, h1)
                    return x, h1
            r, a = run_step(s, u1, stepsize("h0"), lambda i: "rej" if i == 0 else verdicts(c, i), stop_at=2, before=before, fake=1)
            if r is not None:
                release(s, r)
        elif opname == "evolve":
            evolve(c, W, s, u1, h1, op, used, None)
        else:
            evolve(c, W, s, u1, h1, op, used, A)
    except Boom:
        pass
    finally:
        op.off()
        for n in ("_update_stages", "_compute_s", "step"):
            vars(s).pop(n, None)
    return s, used


def evolve(c, W, s, u1, h1, op, used, A):
    """evolve up to the entry of its first step (A None), or of its second with the state A left by the first one.
    What step does from there is the operation 'step' from the state found at the entry."""
    span, t0 = stepsize("span"), sym("t0", real=True)
    r, _, _ = fake_evolve(c, W, s, u1, t0, t0 + span, h1, 0 if A is None else 1, (lambda i: release(s, s.u) or inject(s, A)) if A is not None else None)
    if r is not None:
        release(s, r)


def fake_evolve(c, W, s, u, t0, tf, h, n, onstep=None):
    """evolve with its first n steps replaced by arbitrary results; stops at the entry of the next one.
    Returns (returned state, how it ended, [(u, h, recorded t, recorded u) at each entry])"""
    out = []

    def step(x, y, *a, **k):
        if a or k:
            raise Unsupported("step called with other arguments")
        i = len(out)
        out.append((x, y, list(s.t), list(s.u)))
        if i >= n:
            raise Stop()
        un = state(f"fs{i}", owner="solver")
        if onstep is not None:
            onstep(i)
        if W.cls in CS:
            return un
        ha = y if i or c.choose(("accepted size", i), ["tried", "smaller"]) == "tried" else stepsize(f"fh{i}")
        return un, ha, stepsize(f"fg{i}")

    def attempt(*a, **k):
        raise Unsupported("evolve makes attempts without calling step")
    for nm in ("_update_stages", "step"):
        vars(s).pop(nm, None)
    s.step, s._update_stages = step, attempt
    try:
        r = s.evolve(u, t0, tf, h) if h is not None else s.evolve(u, t0, tf)
        return r, "returned", out
    except Stop:
        return None, "stopped", out
    except (ValueError, RuntimeError) as e:
        return None, type(e).__name__, out
    finally:
        for nm in ("_update_stages", "step"):
            vars(s).pop(nm, None)


def covers(x, y):
    """every solver state described by y is described by x"""
    (tx, hx, px), (ty, hy, py) = x, y
    dx, dy = dict(tx), dict(ty)
    if set(dx) != set(dy) or not hy <= hx or px != py:
        return False
    for p, t in dy.items():
        u = dx[p]
        if u == t or u == "junk":
            if u == "junk" and (t == "absent" or (isinstance(t, tuple))):
                return False
            continue
        if t == "both" and u in ("init", "G"):
            continue
        return False
    return True


@functools.lru_cache(None)
def handlers(cls):
    """does the solver code contain exception handlers?"""
    for m in ("rkstiff.solver", "rkstiff.solveras", "rkstiff.solvercs", "rkstiff.etd", MODS[cls]):
        f = os.path.join(extract.REPO, *m.split(".")) + ".py"
        with open(f, encoding="utf8") as fh:
            if any(isinstance(n, (ast.Try, ast.With)) for n in ast.walk(ast.parse(fh.read()))):
                return True
    return False


def setup(c, mode):
    c.data["order3_force"] = mode[0]
    c.atoms[("dtype", "complex")] = mode[1:] != "f"
    c.data["cond"] = sym("cond", positive=True)
    c.assume(ring.z3sym("cond") >= 1)
    c.assume(ring.z3sym("cond") <= 1000)


def closure(cls, rep, mode, rp):
    """abstract states reachable by any history; frame obligations are recorded through rp"""
    states = []
    work = [None]
    tail = core.Report()
    while work:
        key = work.pop()
        if key is not None and not any(key is k for k in states):
            continue
        for opname in OPS:
            if (key is None and opname in ("retry", "evolve on")) or (cls in CS and opname == "retry"):
                continue
            found = []
            snap = None if handlers(cls) else (lambda s, used: found.append(note(s, used)))

            def note(s, used):
                return classify(s, cur[0].new(), [reffields(cur[0], u, h) for u, h in used])
            cur = []

            def go(c):
                setup(c, mode)
                try:
                    W = World_(cls, rep)
                    cur[:] = [W]
                    s, used = perform(c, W, key, opname, snap)
                except Refused:
                    return
                finally:
                    bad = sorted({m for _, m in c.data.get("framebad", [])})
                    if rp is not None:
                        rp(f"{rp.fn}: {opname} writes no array of the caller and none handed out", not bad, "; ".join(bad)[:600])
                    c.data["framebad"] = []
                found.append(note(s, used))
            core.explore(go, tail, max_paths=3000, budget=150.0)
            for k in found:
                if any(covers(x, k) for x in states):
                    continue
                states[:] = [x for x in states if not covers(k, x)]
                states.append(k)
                work.append(k)
                if len(states) > MAXSTATES:
                    raise Unsupported("too many abstract solver states")
    return states, tail


# ---------------------------------------------------------------- C06
def trace_evolve(c, W, s, u, t0, tf, h, n, script):
    """first n attempts of evolve: (arguments, results, recorded lists, state) per attempt"""
    out = []
    k = [0]

    def note(x, y, res):
        out.append((x, y, res, list(getattr(s, "t", ())), list(getattr(s, "u", ()))))
    end = "stop"
    if W.cls in CS:
        real = s.step

        def step(x, y):
            if k[0] >= n:
                raise Stop()
            k[0] += 1
            r = real(x, y)
            note(x, y, (r, None))
            return r
        s.step = step
    else:
        def before(i, x, y):
            if i >= n:
                raise Stop()
        hk = Hook(s, lambda i: script[min(i, len(script) - 1)], before, lambda i, x, y, res: note(x, y, res))
    r = None
    try:
        r = s.evolve(u, t0, tf, h) if h is not None else s.evolve(u, t0, tf)
        end = "returned"
    except Stop:
        pass
    except (ValueError, RuntimeError) as e:
        end = type(e).__name__
    finally:
        if W.cls in CS:
            vars(s).pop("step", None)
        else:
            hk.off()
    return out, end, r, list(s.t), list(s.u)


def samelists(a, b):
    return len(a) == len(b) and all(samestate(x, y) if isinstance(x, Arr) else samev(x, y) for x, y in zip(a, b))


def diffs(s, ref):
    a, b = fields(s), fields(ref)
    return {p for p in set(a) | set(b) if p not in a or p not in b or not samev(a[p][2], b[p][2])}


def compare_evolves(c, W, A, ref, rp, u, t0, span, hh, n):
    """the course of evolve (steps replaced by arbitrary ones) from an arbitrary state and on a new solver"""
    mark = []
    for o in (A, ref):
        mark.append([])
        r, end, ent = fake_evolve(c, W, o, u, t0, t0 + span, hh, n)
        mark[-1] += [r, end, ent, list(o.t), list(o.u)]
    (ra, enda, ea, ta, ua), (rb, endb, eb, tb, ub) = mark
    ok = enda == endb and len(ea) == len(eb) and all(samestate(x[0], y[0]) and samev(x[1], y[1]) for x, y in zip(ea, eb))
    rp(f"{rp.fn}: evolve makes the steps a new solver makes", ok, f"{[(x[0], x[1]) for x in ea]} then {enda}; a new solver: {[(x[0], x[1]) for x in eb]} then {endb}"[:900])
    rp(f"{rp.fn}: evolve records what a new solver records", samelists(ta, tb) and samelists(ua, ub) and
       all(samelists(x[2], y[2]) and samelists(x[3], y[3]) for x, y in zip(ea, eb)), f"{ta} {ua}; a new solver: {tb} {ub}"[:900])
    rp(f"{rp.fn}: evolve returns what a new solver returns", (ra is None) == (rb is None) and (ra is None or samestate(ra, rb)), f"{ra!r}; a new solver: {rb!r}"[:900])


def c06_obligations(c, W, key, rp, D, light=False):
    """from the abstract state: reset then step, and evolve, are those of a new solver"""
    fn = rp.fn
    ug, g = state("ug"), stepsize("g")
    A = concretize(W, key, ug, g)
    hs = c.choose("h", ["new", "same"])
    h = g if hs == "same" else stepsize("h")
    u = state("u")
    what = c.choose("what", ["reset and step", "evolve"])
    ref = W.new()
    if what == "reset and step":
        A.reset()
        rp(f"{fn}: reset empties the recorded trajectory", list(A.t) == [] and list(A.u) == [], f"{A.t} {A.u}")
        if W.cls in CS:
            a, b = H.run_cs(A, u, h), H.run_cs(ref, u, h)
            ok = samestate(a[0], b[0])
        else:
            v = c.choose("v", ["acc", "rej", "nan"])
            a, b = run_step(A, u, h, [v], stop_at=1), run_step(ref, u, h, [v], stop_at=1)
            ok = (a[0] is None) == (b[0] is None) and (a[0] is None or samestate(a[0][0], b[0][0]) and samev(a[0][1], b[0][1]) and samev(a[0][2], b[0][2]))
        rp(f"{fn}: a step after reset computes what a new solver computes", same_attempt(a[1][0], b[1][0]), describe(a[1][0], b[1][0]))
        rp(f"{fn}: a step after reset returns what a new solver returns", ok, "")
    else:
        span, t0 = stepsize("span"), sym("t0", real=True)
        hh = h if W.cls in CS or hs == "same" or c.choose("hinit", ["given", "default"]) == "given" else None
        n = 1
        if not light:
            compare_evolves(c, W, A, ref, rp, u, t0, span, hh, n)
        # the state at the entry of the first step
        A, ref = concretize(W, key, ug, g), W.new()
        for o in (A, ref):
            fake_evolve(c, W, o, u, t0, t0 + span, hh, 0)
        if diffs(A, ref):
            v = c.choose("v", ["acc", "rej"]) if W.cls in AS else "acc"
            A, ref = concretize(W, key, ug, g), W.new()
            a = trace_evolve(c, W, A, u, t0, t0 + span, hh, n, [v, "acc"])
            b = trace_evolve(c, W, ref, u, t0, t0 + span, hh, n, [v, "acc"])
            bad = [(x, y) for x, y in zip(a[0], b[0]) if not same_attempt(x[:3], y[:3])]
            rp(f"{fn}: every attempt of evolve computes what a new solver computes", len(a[0]) == len(b[0]) and not bad, describe(bad[0][0][:3], bad[0][1][:3]) if bad else "")
            if not a[0]:
                return
        else:
            rp(f"{fn}: every attempt of evolve computes what a new solver computes", True, "")
            return
    D |= diffs(A, ref)


def c06_rest(c, W, rp, D):
    """fields in D (which may differ after the first steps) never matter afterwards, and no other field comes to differ"""
    fn = rp.fn
    h = stepsize("h")
    g = h if c.choose("g", ["new", "same"]) == "same" else stepsize("g")
    u, x = state("u"), state("x")
    s, ref = W.new(), W.new()
    # both have made one step or attempt; then the fields in D are arbitrary in one of them
    if W.cls in CS:
        for o in (s, ref):
            o.step(u, h)
        junk(W, s, D)
        a, b = H.run_cs(s, x, g), H.run_cs(ref, x, g)
        rp(f"{fn}: what differs from a new solver after the first step never matters", same_attempt(a[1][0], b[1][0]), describe(a[1][0], b[1][0]))
        D |= diffs(s, ref)
        return
    v = c.choose("v", ["acc", "rej"])
    v2 = c.choose("v2", ["acc", "rej", "nan"])
    if v == "acc":
        for o in (s, ref):
            run_step(o, u, h, ["acc"])
        junk(W, s, D)
        a, b = run_step(s, x, g, [v2], stop_at=1), run_step(ref, x, g, [v2], stop_at=1)
        p, q = a[1][0], b[1][0]
    else:
        def mk(o, j):
            def before(i, y, z):
                if i == 1:
                    if j:
                        junk(W, o, D)
                    return y, g
            return before
        a = run_step(s, u, h, ["rej", v2], stop_at=2, before=mk(s, True))
        b = run_step(ref, u, h, ["rej", v2], stop_at=2, before=mk(ref, False))
        if len(a[1]) < 2 or len(b[1]) < 2:
            rp(f"{fn}: a rejected attempt is followed by another one", False, "")
            return
        p, q = a[1][1], b[1][1]
    rp(f"{fn}: what differs from a new solver after the first step never matters", same_attempt(p, q), describe(p, q))
    D |= diffs(s, ref)


def junk(W, s, D):
    cache = {}
    ref = clone(reffields(W, state("ug"), stepsize("g0")))
    for p in sorted(D):
        lv = fields(s).get(p)
        if lv is None or lv[2] is None:
            lv = ref.get(p)
            if lv is None:
                raise Unsupported(f"solver state {p} exists only in some states")
        setpath(s, p, junklike(lv[2], p, cache))


def job_c06_(rep, cls, kind, mode):
    fn = f"{MODS[cls]}.{cls}[{kind}]"
    states, tail = closure(cls, kind, mode, None)
    rep.solver_time += tail.solver_time
    rep.paths += tail.paths
    D = set()
    rp = Rep(fn)
    for key in states:
        def go(c):
            setup(c, mode)
            try:
                c06_obligations(c, World_(cls, kind), key, rp, D, mode != ">c")
            except Refused:
                return
        core.explore(go, rp.r, max_paths=3000, budget=150.0)
    for _ in range(20):
        n = len(D)
        rp2 = Rep(fn)

        def go2(c):
            setup(c, mode)
            try:
                c06_rest(c, World_(cls, kind), rp2, D)
            except Refused:
                return
        core.explore(go2, rp2.r, max_paths=3000, budget=150.0)
        if len(D) == n:
            break
    else:
        raise Unsupported("fields that differ from a new solver do not settle")
    rep.merge(rp.r)
    rep.merge(rp2.r)
    rep.notes.append(f"{fn} [{mode}]: {len(states)} abstract states cover every history; fields whose old content survives: {len(D)}")
    if not rep.obl:
        rep.unsupported.append((fn, "no path completes"))


def job_c08_(rep, cls, kind, mode):
    fn = f"{MODS[cls]}.{cls}[{kind}]"
    rp = Rep(fn)
    states, tail = closure(cls, kind, mode, rp)
    rep.merge(rp.r)
    rep.solver_time += tail.solver_time
    rep.paths += tail.paths
    rep.notes.append(f"{fn} [{mode}]: {len(states)} abstract states cover every history")
    if not rep.obl:
        rep.unsupported.append((fn, "no path completes"))


def job_c06(*a):
    return guarded(job_c06_)(*a)


def job_c08(*a):
    return guarded(job_c08_)(*a)


def asks_dtype(cls, rep):
    """does the code look at the dtype of the operator or state?"""
    hit = []

    def go(c):
        setup(c, ">c")
        del c.atoms[("dtype", "complex")]
        try:
            W = World_(cls, rep)
            s = W.new()
            for _ in range(2):
                if cls in CS:
                    s.step(state("u"), stepsize("h"))
                else:
                    run_step(s, state("u"), stepsize("h"), ["acc"])
                s.reset()
        except Refused:
            pass
        finally:
            hit.append(("dtype", "complex") in c.atoms)
    try:
        core.explore(go, core.Report(), max_paths=64)
    except (Unsupported,) + CRASH:
        core.CTX = None
        return True
    return any(hit)


def modes(cls, rep):
    """mode below/above modecutoff x dtype of the caller's operator (where the code looks at it)"""
    m = [">c", "<c"] if cls in IS_ETD else [">c"]
    return m + [">f"] if asks_dtype(cls, rep) else m


def jobs(pid):
    specs = sorted(SPECS, key=lambda s: s[0] not in ("ETD35", "ETD34", "ETD5"))
    if pid == "C06":
        return parallel.run(job_c06, [(a, b, m) for a, b in specs for m in modes(a, b)])
    if pid == "C08":
        return parallel.run(job_c08, [(a, b, m) for a, b in specs for m in modes(a, b)])
    if pid == "C15":
        from . import isolation
        return isolation.jobs()
    raise KeyError(pid)
