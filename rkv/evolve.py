"""Contracts of BaseSolverAS.evolve and BaseSolverCS.evolve (C01, C02, C03), in floating-point arithmetic.

step is replaced by its contract (proved for C04/C05): called with a finite step size > 0 it returns a new
state, the step size actually used 0 < h' <= h, and a suggestion hs >= h' (constant-step: a new state), or
raises a SolverError (then evolve propagates it).  Ghost state: k steps taken, tau = t0 + exact sum of the
accepted steps, E = accumulated round-off bound, KH = k*h, rem = k mod store_freq, the token of the state
reached and the pair recorded for each step.
"""
import z3
from . import core, parallel
from .core import Unsupported, PathEnd, SInt, SBool, mkint, mkbool, Poison
from .extract import World
from .fl import FL, rnd, declare, rv, tab
from .runtime import CutRuntime, SRange, Shim, CList, logging_shim, houdini, Missing

AS_FN = "rkstiff.solveras.BaseSolverAS.evolve"
CS_FN = "rkstiff.solvercs.BaseSolverCS.evolve"
EPS = z3.RealVal("1/4503599627370496")


class State:
    """a solution array (contents abstract); version = number of steps that produced it"""
    __slots__ = ("ver", "shape", "dtype")

    def __init__(self, ver):
        self.ver = ver      # z3 Int: index of the state in the run's sequence

    def copy(self):
        return State(self.ver)

    def __format__(self, s): return "<state>"
    def __repr__(self): return f"<State {self.ver}>"
    __hash__ = object.__hash__

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported(f"evolve looks into the state: .{a}")


class GList(CList):
    """a solver list: after a loop is cut, its content is an abstract prefix (what the snapshot rule demands after g.k
    steps, at least the initial pair) followed by what the iteration appended"""
    __slots__ = ()

    def _rkv_len(self):
        n = list.__len__(self)
        if self.spec is None:
            return n
        if self.spec == "unknown content":
            raise Unsupported("length of a list of unknown content")
        return mkint(self.rt.g.nb + n)

    def __bool__(self):
        if self.spec == "unknown content":
            raise Unsupported("list of unknown content")
        return self.spec is not None or list.__len__(self) > 0

    def __getitem__(self, i):
        n = list.__len__(self)
        if self.spec is None or (type(i) is int and -n <= i < 0):
            return list.__getitem__(self, i)
        g = self.rt.g
        if self.spec != "unknown content" and g.store and type(i) is int:
            if i == 0:
                return FL(g.t0.e) if self.spec == "t" else State(z3.IntVal(0))
            if i == -1 - n and g.rec:
                return FL(g.lasthead) if self.spec == "t" else State(g.kbase)
        raise Unsupported("earlier elements of a solver list in a cut loop")

    def __iter__(self):
        if self.spec is not None:
            raise Unsupported("iteration over a solver list whose content is abstract")
        return list.__iter__(self)

    def __eq__(self, o):
        if self.spec is not None:
            raise Unsupported("comparison of a solver list whose content is abstract")
        return list.__eq__(self, o)
    __hash__ = None

    def copy(self):
        raise Unsupported("copy of a solver list")
    index = count = __contains__ = __add__ = __reversed__ = __mul__ = lambda self, *a: GList.copy(self)


class G:
    pass


def zabs(x):
    return z3.If(x >= 0, x, -x)



class RT(CutRuntime):
    """mode 'AS' | 'CS'; unroll = None (cut loops, unbounded) or a number of steps (bounded refutation search)"""

    def __init__(self, mode, unroll=None):
        super().__init__()
        self.mode = mode
        self.unroll = unroll

    def lit(self, text):
        if "j" in text:
            raise Unsupported("complex literal in evolve")
        return FL.const(float(text))

    def lst(self, x):
        return GList(self, x)

    def numdiv(self, a, b):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return FL.const(a / b)

    def pick(self, r, x, better):
        if isinstance(r, FL) or isinstance(x, FL):
            a = r if isinstance(r, FL) else x._o(r)
            b = x if isinstance(x, FL) else r._o(x)
            t = better(a, b)
            c = t.e if isinstance(t, SBool) else z3.BoolVal(bool(t))
            e = z3.If(c, b.e, a.e)
            declare(e)
            return FL(e, a.np or b.np)
        return super().pick(r, x, better)

    def native(self, mod, qual, kind, it):
        if self.unroll is not None:
            return True
        return super().native(mod, qual, kind, it)

    def loop(self, ident, mod, qual, names, kind, it):
        if self.unroll is not None and isinstance(it, SRange):
            it = UnrolledRange(it)
        return super().loop(ident, mod, qual, names, kind, it)

    # ---------- ghost
    @property
    def g(self):
        return core.ctx().data["G"]

    def havoc_ghost(self, loop):
        c, g = core.ctx(), self.g
        g.k = c.fresh("k", "Int")
        c.assume(g.k >= 0)
        if self.mode == "CS":
            g.KH = c.fresh("KH")
            c.assume(z3.And(g.KH >= 0, z3.Implies(g.k == 0, g.KH == 0), z3.Implies(g.k == 1, g.KH == g.h.e),
                            z3.Implies(g.k >= 1, g.KH >= g.h.e)))
            # the last step taken was needed: obligation of its own at each call of step
            c.assume(z3.Implies(g.k >= 1, g.t0.e + g.KH - g.h.e < g.tf.e - g.slo))
        else:
            g.tau = c.fresh("tau")
            g.E = c.fresh("E")
            c.assume(z3.And(g.E >= 0, z3.Implies(g.k == 0, z3.And(g.tau == g.t0.e, g.E == 0)), z3.Implies(g.k >= 1, g.E >= g.unit), g.tau >= g.t0.e))
        g.rem = c.fresh("rem", "Int")
        c.assume(z3.And(g.rem >= 0, g.rem < g.sfe, z3.Implies(g.k == 0, g.rem == 0)))
        g.nb = c.fresh("stored", "Int")      # pairs stored so far
        c.assume(g.nb == g.k + 1 if g.rec else z3.And(g.nb >= 1, g.nb <= g.k + 1, z3.Implies(g.k == 0, g.nb == 1)))
        g.kbase = g.k
        if g.rec:
            g.last = c.fresh("last")
            declare(g.last)
            g.lasthead = g.last
        if g.hs is not None:
            g.hs = c.fresh("suggested")
            declare(g.hs)

    def havoc(self, var, v, kind):
        c = core.ctx()
        nm = var[-1] if var[0] != "j" else "j"
        if kind == "bad":
            return Poison(str(nm))
        if isinstance(v, (bool, SBool)):
            return SBool(c.fresh(str(nm), "Bool"))
        if kind == "FL" or isinstance(v, (FL, float)):
            return FL.new(str(nm))
        if isinstance(v, (int, SInt)):
            return mkint(c.fresh(str(nm), "Int"))
        if isinstance(v, State):
            return State(c.fresh("ver", "Int"))
        if isinstance(v, list):
            return v
        return Poison(str(nm))

    def join_kind(self, kind, a, b):
        def k(x):
            if isinstance(x, (bool, SBool)):
                return "B"
            if isinstance(x, (int, SInt)):
                return "I"
            if isinstance(x, (FL, float)):
                return "FL"
            if isinstance(x, State):
                return "S"
            if isinstance(x, Poison):
                return "P"
            return type(x).__name__
        ka, kb = kind or k(a), k(b)
        if ka == "P" or kb == "P" or ka == kb:
            return kind
        if {ka, kb} == {"I", "FL"}:
            return "FL"
        return "bad"

    def same_value(self, a, b):
        if isinstance(a, FL) and isinstance(b, FL):
            return z3.eq(a.e, b.e)
        if isinstance(a, (int, str, float)) and isinstance(b, (int, str, float)):
            return type(a) is type(b) and a == b
        return a is b

    def havoc_list(self, i, f, lst, info):
        if f not in ("t", "u"):
            raise Unsupported(f"list {f} modified in the loop")
        list.__delitem__(lst, slice(None))
        self.g.base[f], self.g.exp[f] = f, []
        lst.spec = f if f"list {f} as specified" not in info.dropped else "unknown content"
        # "the specified content for g.k steps", granted by the candidate invariant `list f as specified`

    # ---------- candidate invariants
    def candidates(self, loop, st, mod):
        g = self.g
        out = []

        def num(s, v):
            x = s[v]
            if isinstance(x, FL):
                return x
            if type(x) is int and loop.info.kinds.get(v) == "FL":
                return FL.const(x)
            raise KeyError(v)
        T0, TF = g.t0.e, g.tf.e
        head = getattr(loop, "entry", None)
        if head is not None:
            st = {v: x for v, x in st.items() if v in head and not isinstance(head[v], Poison)}
        isfl = lambda v: isinstance(st[v], FL) or (loop.info.kinds.get(v) == "FL" and type(st[v]) is int)
        fls = [v for v in st if v in mod and isfl(v)]
        ints = [v for v in st if v in mod and isinstance(st[v], (int, SInt)) and not isinstance(st[v], bool) and not isfl(v)]
        fixed = [v for v in st if v not in mod and isinstance(st[v], FL)]
        for v in fls:
            n = str(v)
            out += [
                (f"{n}<=tf", lambda s, v=v: num(s, v).e <= TF),
                (f"{n}>=tf", lambda s, v=v: num(s, v).e >= TF),
                (f"{n}>=t0", lambda s, v=v: num(s, v).e >= T0),
                (f"{n}>0", lambda s, v=v: num(s, v).e > 0),
            ]
            if g.rec:
                out.append((f"{n}==last", lambda s, v=v: num(s, v).e == g.last))
            if self.mode == "AS":
                if g.rec and g.hs is not None:
                    out.append((f"{n} is the suggested or the remaining step", lambda s, v=v: g.threaded(num(s, v).e)))
                out.append((f"|{n}-tau|<=E", lambda s, v=v: z3.And(num(s, v).e - g.tau <= g.E, g.tau - num(s, v).e <= g.E)))
                dr = loop.info.dropped
                for w in fls if not (f"{n}<=tf" in dr or f"{n}>=t0" in dr) else []:
                    m = str(w)
                    if w != v and (f"{m}<=tf" in dr or f"{m}>=t0" in dr):
                        out.append((f"{m}=tf-{n} or {n}+{m}<=tf", lambda s, v=v, w=w: z3.Or(
                            num(s, w).e == rnd(TF - num(s, v).e), rnd(num(s, v).e + num(s, w).e) <= TF)))
                        out.append((f"{n}<tf => {m}>0", lambda s, v=v, w=w: z3.Implies(num(s, v).e < TF, num(s, w).e > 0)))
            else:
                out.append((f"{n}~t0+KH", lambda s, v=v: zabs(num(s, v).e - (T0 + g.KH)) <= g.close()))
            for w in fixed:
                out.append((f"{n}=={w}", lambda s, v=v, w=w: num(s, v).e == num(s, w).e))
        for a in range(len(fls)):
            for b in range(a + 1, len(fls)):
                out.append((f"{fls[a]}=={fls[b]}", lambda s, v=fls[a], w=fls[b]: num(s, v).e == num(s, w).e))
        for v in ints:
            n = str(v)
            out += [(f"{n}==k", lambda s, v=v: ie(s[v]) == g.k), (f"{n}==rem", lambda s, v=v: ie(s[v]) == g.rem),
                    (f"{n}==k+1", lambda s, v=v: ie(s[v]) == g.k + 1), (f"{n}>=0", lambda s, v=v: ie(s[v]) >= 0)]
        for v in st:
            if v in mod and isinstance(st[v], State):
                out.append((f"{v} is u_k", lambda s, v=v: s[v].ver == g.k))
        if g.rec:
            if self.mode == "AS":
                out += [("last~tau", lambda s: z3.And(g.last - g.tau <= g.E, g.tau - g.last <= g.E)),
                        ("last<=tf", lambda s: g.last <= TF), ("last>=t0", lambda s: g.last >= T0)]
            else:
                out.append(("last~t0+KH", lambda s: zabs(g.last - (T0 + g.KH)) <= g.close()))
        out.append(("no step", lambda s: g.k == 0))
        for i, f in sorted(loop.info.lists):
            out.append((f"list {f} as specified", lambda s, i=i, f=f: self.list_ok(f, s.get(("f", i, f)))))
        return out

    def list_ok(self, f, lst):
        """the content of solver.t / solver.u is what the snapshot rule demands after g.k steps"""
        g = self.g
        if not isinstance(lst, list):
            return False
        if f not in ("t", "u"):
            return False
        want = g.exp[f]
        if getattr(lst, "spec", None) != g.base[f] or len(lst) != len(want):
            return False
        cs = [w(x) for x, w in zip(list.__iter__(lst), want)]
        return z3.And(cs) if cs else True

    def after_head(self, loop, st):
        self.g.khead = self.g.k

    def pre_back(self, loop, st):
        sync(self.g)
        if not z3.is_true(z3.simplify(self.g.k == self.g.khead + 1)):
            raise Unsupported("a loop iteration that does not take exactly one step")


class UnrolledRange:
    def __init__(self, r):
        self.r = r

    def __iter__(self):
        j = self.r.lo
        while core.ctx().decide(ie(j) < ie(self.r.hi)):
            yield j
            j = j + 1


def ie(x):
    return x.e if isinstance(x, SInt) else z3.IntVal(int(x))


def shims():
    def absf(x):
        return abs(x)

    def rt():
        return core.ctx().data["rt"]

    def finfo(t=None):
        return Shim("finfo", eps=FL.const(2.0 ** -52), tiny=FL.const(2.2250738585072014e-308), max=FL.const(1.7976931348623157e308))
    np = Shim("numpy", ndarray=object, finfo=finfo, abs=absf, fabs=absf, absolute=absf, float64=lambda x: x,
              isfinite=lambda x: True, isnan=lambda x: False, isinf=lambda x: False,
              maximum=lambda a, b: rt().pick(a, b, lambda x, y: y > x), minimum=lambda a, b: rt().pick(a, b, lambda x, y: y < x),
              max=lambda a: rt().max_(a), min=lambda a: rt().min_(a))
    math = Shim("math", fabs=absf, isnan=lambda x: False, isfinite=lambda x: True, isinf=lambda x: False)
    fi = Shim("float_info")
    sys_ = Shim("sys", float_info=fi)
    return {"numpy": np, "logging": logging_shim(), "math": math, "sys": sys_, "scipy": Shim("scipy"), "scipy.linalg": Shim("scipy.linalg"),
            "scipy.special": Shim("scipy.special"), "scipy.fft": Shim("scipy.fft"), "time": Shim("time", time=lambda: 0, perf_counter=lambda: 0)}


class SolverErr(Exception):
    """stands for a SolverError raised by step"""


def sync(g):
    """note the time the program recorded for the last completed step (store_freq = 1 runs)"""
    if g.rec and g.solver is not None and g.k0sync is not g.k:
        t = g.solver.t
        if isinstance(t, list) and len(t) and fl(t[-1]) is not None and len(t) == len(g.exp["t"]):
            g.last = fl(t[-1])
            g.k0sync = g.k


def stub_step(rt, solver, u, h):
    c = core.ctx()
    g = c.data["G"]
    fn, mode = g.fn, rt.mode
    if not isinstance(u, State):
        raise Unsupported("step called with something that is not a tracked state")
    if isinstance(h, (int, float)) and not isinstance(h, bool):
        h = FL.const(h)
    if not isinstance(h, FL):
        raise Unsupported("step size of unknown form")
    if rt.unroll is not None and z3.simplify(g.k).as_long() >= rt.unroll:
        raise PathEnd()
    sync(g)
    core.CTX.data["steps"] = core.CTX.data.get("steps", 0) + 1
    if g.pid != "C03":
        c.prove(f"{fn}: step is called with the state the previous step returned", u.ver == g.k, fn)
    if mode == "AS":
        if g.pid == "C01":
            c.prove(f"{fn}: step is called with a step size > 0", h.e > 0, fn)
            c.prove(f"{fn}: no step when tf <= t0", g.t0.e < g.tf.e, fn)
            if g.rec:
                c.prove(f"{fn}: no step once tf is reached", g.last < g.tf.e, fn)
            if g.rec and g.hs is not None:
                c.prove(f"{fn}: step is called with the suggested step size or, when that is within 2%, with what is left of the interval", g.threaded(h.e), fn)
        c.assume(h.e > 0)
        if c.free(("step raises", g.nsteps)):
            raise SolverErr()
        h2, hs = FL.new("h_used", True), FL.new("h_next", True)
        c.assume(z3.And(h2.e > 0, h2.e <= h.e, hs.e >= h2.e))
        g.tau = g.tau + h2.e
        g.E = g.E + g.unit
        if g.hs is not None:
            g.hs = hs.e
    else:
        if g.pid == "C02":
            c.prove(f"{fn}: step is called with the requested step size", h.e == g.h.e, fn)
            c.prove(f"{fn}: a step is taken only if t0 + k*h is short of tf", g.t0.e + g.KH < g.tf.e - g.slo, fn)
        g.KH = g.KH + g.h.e
    g.nsteps += 1
    g.k = z3.simplify(g.k + 1)
    g.rem = z3.If(g.rem + 1 == g.sfe, 0, g.rem + 1)
    if g.store and c.decide(g.rem == 0):
        kk, tau, E, KH = g.k, g.tau if mode == "AS" else None, g.E if mode == "AS" else None, g.KH
        prev = g.last

        def wt(x):
            e = fl(x)
            if e is None:
                return z3.BoolVal(False)
            if mode == "AS":
                r = z3.And(e - tau <= E, tau - e <= E, e <= g.tf.e)
                return z3.And(r, e >= prev) if g.rec else r
            return zabs(e - (g.t0.e + KH)) <= g.close(KH)
        g.exp["t"].append(wt)
        g.exp["u"].append(lambda x: x.ver == kk if isinstance(x, State) else z3.BoolVal(False))
    un = State(g.k)
    return (un, h2, hs) if mode == "AS" else un


def fl(x):
    if isinstance(x, FL):
        return x.e
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return rv(x)
    return None


def setup(pid, mode, store, sfkind, hnone=False, fwd=True):
    c = core.ctx()
    g = G()
    c.data["G"] = g
    g.pid, g.fn = pid, AS_FN if mode == "AS" else CS_FN
    tab()
    g.t0, g.tf = FL.new("t0"), FL.new("tf")
    g.h = FL.new("h")
    c.assume(g.h.e > 0)
    c.assume(g.t0.e < g.tf.e if fwd else g.t0.e >= g.tf.e)
    g.M = z3.If(zabs(g.t0.e) >= zabs(g.tf.e), zabs(g.t0.e), zabs(g.tf.e))
    g.unit = g.M * z3.RealVal("1/2251799813685248")       # 2^-51
    g.slo = g.M * z3.RealVal("1/4503599627370496")        # 2^-52
    g.shi = g.M * z3.RealVal(f"1/{2 ** 46}")
    g.close = lambda KH=None: z3.RealVal(f"3/{2 ** 53}") * (zabs(g.t0.e) + (g.KH if KH is None else KH))
    g.k = z3.IntVal(0)
    g.KH = z3.RealVal(0)
    g.tau, g.E = g.t0.e, z3.RealVal(0)
    g.rem = z3.IntVal(0)
    g.store = store
    g.rec = store and sfkind == 1
    if sfkind == 1:
        g.sf, g.sfe = 1, z3.IntVal(1)
    else:
        g.sf = SInt(c.fresh("store_freq", "Int"))
        g.sfe = g.sf.e
        c.assume(g.sfe >= 1)
    g.last = g.lasthead = g.t0.e
    g.hs = g.h.e if mode == "AS" and not hnone else None      # the step size suggested last
    g.threaded = lambda e: z3.Or(e == g.hs, z3.And(e == rnd(g.tf.e - g.last), e * 50 <= g.hs * 51))
    g.nb = z3.IntVal(1 if store else 0)
    g.kbase = g.k
    g.k0sync = g.k
    g.nsteps = 0
    g.base = {"t": None, "u": None}
    g.exp = {"t": [], "u": []}
    if store:
        g.exp["t"].append(lambda x: fl(x) == g.t0.e if fl(x) is not None else z3.BoolVal(False))
        g.exp["u"].append(lambda x: x.ver == 0 if isinstance(x, State) else z3.BoolVal(False))
    g.solver = None

    def kmul(n, f):
        if mode == "CS" and z3.eq(f.e, g.h.e):
            for d in (0, 1, -1):
                if c.valid(n.e == g.k + d):
                    return g.KH + d * g.h.e
        return None
    c.data["kmul"] = kmul

    def mod(n, o):
        e = ie(o) if isinstance(o, (int, SInt)) else None
        if e is None:
            return None
        if not z3.eq(z3.simplify(e), z3.simplify(g.sfe)):
            if isinstance(o, int) and o > 1:      # e.g. progress messages: any remainder (over-approximation)
                r = c.fresh("rem100", "Int")
                c.assume(z3.And(r >= 0, r < o))
                return mkint(r)
            return None
        for d, r in ((0, g.rem), (1, z3.If(g.rem + 1 == g.sfe, 0, g.rem + 1))):
            if c.valid(n.e == g.k + d):
                return mkint(r)
        return None
    c.data["mod"] = mod
    quot = []       # (quotient, number - remainder) of divisions by store_freq

    def intdiv(n, o):
        e = ie(o) if isinstance(o, (int, SInt)) else None
        if e is None or not z3.eq(z3.simplify(e), z3.simplify(g.sfe)) or z3.is_int_value(z3.simplify(e)):
            return None
        r = mod(n, o)
        if r is None:
            return None
        q = c.fresh("quotient", "Int")
        m = n.e - ie(r)
        c.assume(z3.And(q >= 0, q <= n.e, (q == 0) == (m == 0), z3.Implies(g.sfe == 1, q == n.e)))
        quot.append((q, m))
        return SInt(q)

    def intmul(a, b):
        for x, y in ((a, b), (b, a)):
            if z3.eq(z3.simplify(x), z3.simplify(g.sfe)):
                for q, m in quot:
                    if z3.eq(z3.simplify(y), q):
                        return mkint(m)
        return None
    c.data["intdiv"], c.data["intmul"] = intdiv, intmul
    return g


def run_evolve(rt, pid, mode, store, sfkind, hnone, fwd=True):
    def run(c):
        c.data["rt"] = rt
        g = setup(pid, mode, store, sfkind, hnone, fwd)
        w = World(shims(), rt)
        base = w.load("rkstiff.solveras").BaseSolverAS if mode == "AS" else w.load("rkstiff.solvercs").BaseSolverCS

        class V(base):
            def _reset(self):
                pass

            def _q(self):
                raise Unsupported("evolve asks for the order")

            def _update_stages(self, u, h):
                raise Unsupported("evolve bypasses step")

            def step(self, u, h, *a, **k):
                if a or k:
                    raise Unsupported("step called with extra arguments")
                return stub_step(rt, self, u, h)
        V.__name__ = "V"
        rt.begin([])
        s = V(Lin(), lambda u: u)
        g.solver = s
        rt.begin([s])
        u0 = State(z3.IntVal(0))
        args = (u0, g.t0, g.tf)
        fn = g.fn
        try:
            if mode == "AS":
                out = s.evolve(*args, h_init=None if hnone else g.h, store_data=store, store_freq=g.sf)
            else:
                out = s.evolve(*args, h=g.h, store_data=store, store_freq=g.sf)
        except SolverErr:
            return "raised"
        except ValueError as e:
            if mode == "CS":
                if pid == "C02":
                    c.prove(f"{fn}: ValueError only if h exceeds tf - t0", g.t0.e + g.h.e > g.tf.e + g.slo, fn, str(e))
                    c.prove(f"{fn}: ValueError before any step", g.k == 0, fn)
                return "ValueError"
            c.prove(f"{fn}: no exception other than SolverError", False, fn, repr(e))
            return "error"
        except (ZeroDivisionError, AssertionError, OverflowError, IndexError, UnboundLocalError) as e:
            c.prove(f"{fn}: no unexpected exception", False, fn, repr(e))
            return "error"
        sync(g)
        isst = isinstance(out, State)
        c.prove(f"{fn}: returns the state of the last step", out.ver == g.k if isst else False, fn)
        if pid == "C01":
            c.prove(f"{fn}: tf <= t0 takes no step", z3.Implies(g.tf.e <= g.t0.e, g.k == 0), fn)
            c.prove(f"{fn}: the accepted steps add up to tf - t0 up to round-off",
                    z3.Implies(g.t0.e < g.tf.e, z3.And(g.tf.e - g.tau <= g.E, g.tau - g.tf.e <= g.E)), fn)
            if store:
                c.prove(f"{fn}: every recorded time is t0 + sum of the accepted steps up to round-off, never decreases and never exceeds tf",
                        rt.list_ok("t", s.t), fn)
            if g.rec:
                c.prove(f"{fn}: the last time is exactly tf", z3.Implies(g.t0.e < g.tf.e, g.last == g.tf.e), fn)
        if pid == "C02":
            c.prove(f"{fn}: enough steps to reach tf", g.t0.e + g.KH >= g.tf.e - g.shi, fn)
            c.prove(f"{fn}: a step size exceeding tf - t0 raises ValueError", g.t0.e + g.h.e <= g.tf.e + g.shi, fn)
            if store:
                c.prove(f"{fn}: the k-th recorded time is t0 + k*h up to round-off", rt.list_ok("t", s.t), fn)
        if pid == "C03":
            c.prove(f"{fn}: solver.t holds exactly the specified times", rt.list_ok("t", s.t), fn)
            c.prove(f"{fn}: solver.u holds exactly the specified states", rt.list_ok("u", s.u), fn)
        return "ok"
    return run


class Lin:
    shape = (3,)
    ndim = 1
    size = 3

    def __len__(self):
        return 3


CONFIGS = {
    "C01": [("AS", True, 1, False), ("AS", True, 1, True), ("AS", False, "n", False), ("AS", False, "n", True)],
    "C02": [("CS", True, 1, False), ("CS", False, "n", False)],
    "C03": [("AS", True, "n", False), ("AS", False, "n", False), ("AS", True, "n", True), ("CS", True, "n", False), ("CS", False, "n", False)],
}


def jobs(pid):
    for mode, store, sf, hnone in CONFIGS[pid]:
        for fwd in (True, False):
            yield mode, store, sf, hnone, fwd


def verify(pid, tier, rep):
    rep.assume("IEEE double arithmetic without overflow or underflow; times and step sizes finite; h > 0; step counts below 2^53")
    rep.assume("contract of step (0 < h_used <= h, h_next >= h_used, or SolverError): proved for C05 on the real step")
    rep.assume("logging calls have no effect (C16)")
    rep.assume("partial correctness: termination of evolve is not claimed")
    js = list(jobs(pid))
    for r in parallel.run(one, [(pid,) + j for j in js]):
        rep.merge(r)


def one(pid, mode, store, sf, hnone, fwd):
    rep = core.Report()
    fn = AS_FN if mode == "AS" else CS_FN
    tag = f"[store={store}, freq={sf}, {'t0<tf' if fwd else 'tf<=t0'}{', h_init=None' if hnone else ''}]"
    want = {"ok"} if mode == "AS" else ({"ok", "ValueError"} if fwd else {"ValueError"})
    r = core.Report()
    try:
        outs = attempt(pid, mode, store, sf, hnone, fwd, None, r)
        kinds = {o[0][1] for o in outs if o[0][0] == "ok"}
        ends = sum(o[0][0] == "end" for o in outs)
        bad = r.refuted() + r.unknown()
        if not bad and (not want <= kinds or (fwd and not ends)):
            raise Unsupported(f"vacuous exploration: {kinds}, {ends}")
        why = "; ".join(f"{n}: {r.obl[n]['detail'][:1]}" for n in bad)[:600]
    except Unsupported as e:
        bad, r, why = ["?"], None, str(e)
    if not bad:
        rename(r, tag)
        return r
    # not proved: look for a definite refutation on unrolled executions
    hit = []
    for steps in (1, 2, 3):
        r2 = core.Report()
        try:
            attempt(pid, mode, store, sf, hnone, fwd, steps, r2)
        except Unsupported as e:
            why += f"; unrolled: {e}"
        hit = r2.refuted()
        if hit:
            break
    if hit:
        for n in list(r2.obl):
            if not r2.obl[n]["refuted"]:
                del r2.obl[n]
        rename(r2, tag + f" (unrolled {steps} step(s))")
        rep.merge(r2)
    else:
        rep.unsupported.append((fn + tag, why))
        if r is not None:
            for n in bad:
                r.obl.pop(n)
            rename(r, tag)
            rep.merge(r)
    return rep


def rename(r, tag):
    r.obl = {n + " " + tag: o for n, o in r.obl.items()}
    r.functions = {f: {n + " " + tag for n in s} for f, s in r.functions.items()}


def attempt(pid, mode, store, sf, hnone, fwd, unroll, r):
    rt = RT(mode, unroll)
    return houdini(rt, run_evolve(rt, pid, mode, store, sf, hnone, fwd), r, max_paths=3000, budget=100 if unroll is None else 40, stop=unroll is not None)
