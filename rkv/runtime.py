"""Runtime of the extracted code: helpers the extraction calls, loops, builtins and library contract models (shims)."""
import builtins
import os
import z3
from . import core
from .core import Unsupported, PathEnd, SInt, SBool, mkint, mkbool, Opaque, Poison
from .extract import World


class Missing:
    """A library name without a contract model: may be mentioned, not used."""

    def __init__(self, name):
        self.__dict__["_name"] = name

    def __getattr__(self, a):
        if a.startswith("__") and a.endswith("__"):
            raise AttributeError(a)
        return Missing(f"{self._name}.{a}")

    def _no(self, *a, **k):
        raise Unsupported(f"no contract model for {self._name}")
    __call__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __iter__ = __len__ = __enter__ = __exit__ = _no

    def __getitem__(self, i):
        return Missing(f"{self._name}[...]")

    def __or__(self, o):
        return self
    __ror__ = __or__

    def __instancecheck__(self, o):
        raise Unsupported(f"isinstance(..., {self._name})")


class Shim:
    """Library namespace: known members, everything else Missing."""

    def __init__(self, name, **members):
        self.__dict__["_shim_name"] = name
        self.__dict__.update(members)

    def __getattr__(self, a):
        if a.startswith("__") and a.endswith("__"):
            raise AttributeError(a)
        return Missing(f"{self._shim_name}.{a}")


class FakeLogger:
    """Contract model of logging.Logger: records are discarded; what the level lets through is unknown."""

    def __init__(self, name="?"):
        self.name = name
        self.handlers = []
        self.propagate = True
        self.disabled = False
        self._n = 0

    def _log(self, *a, **k):
        return None
    debug = info = warning = error = critical = exception = log = warn = setLevel = addFilter = _log

    def isEnabledFor(self, lvl):
        self._n += 1
        return core.ctx().free(("log", self.name, self._n, lvl))

    def hasHandlers(self):
        return bool(self.handlers)

    def addHandler(self, h):
        self.handlers.append(h)

    def removeHandler(self, h):
        self.handlers.remove(h)

    def getEffectiveLevel(self):
        return core.ctx().data.setdefault("loglevel", mkint(core.ctx().fresh("loglevel", "Int")))

    @property
    def level(self):
        return self.getEffectiveLevel()


class _Stub:
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return lambda *x, **k: None


def logging_shim():
    loggers = {}

    def getLogger(name=None):
        return loggers.setdefault(str(name), FakeLogger(str(name)))
    names = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50, "NOTSET": 0, "WARN": 30, "FATAL": 50}
    return Shim("logging", getLogger=getLogger, Logger=FakeLogger, StreamHandler=_Stub, Formatter=_Stub, Handler=_Stub, NullHandler=_Stub,
                getLevelName=lambda x: "<level>", addLevelName=lambda *a: None, **names)


# ---------------------------------------------------------------- runtime
class TList(list):
    """list display of the code under verification"""
    __slots__ = ("spec", "__dict__")

    def __init__(self, x=()):
        super().__init__(x)
        self.spec = None      # abstract prefix (set when a loop is cut)


class TDict(dict):
    """dict display of the code under verification: a symbolic key is compared with every key in turn"""
    __slots__ = ()

    def _find(self, k):
        for x in self:
            if not isinstance(x, (str, tuple)) and x is not None and bool(k == x):
                return x
        return _ABSENT

    def get(self, k, d=None):
        if isinstance(k, SInt):
            k = self._find(k)
        return dict.get(self, k, d)

    def __getitem__(self, k):
        if isinstance(k, SInt):
            x = self._find(k)
            if x is _ABSENT:
                raise KeyError("symbolic key")
            k = x
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        if isinstance(k, SInt):
            return self._find(k) is not _ABSENT
        return dict.__contains__(self, k)


_ABSENT = object()


class Runtime:
    cut_all = False

    def __init__(self):
        self.hook = None

    # literals: subclasses choose the number domain
    def lit(self, text):
        return complex(text) if "j" in text else float(text)

    def div(self, a, b):
        if isinstance(a, str) or isinstance(b, str):
            return "<path>"
        if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)):
            return self.numdiv(a, b)
        return a / b

    def numdiv(self, a, b):
        return a / b

    def idiv(self, a, b):
        f = getattr(type(a), "__itruediv__", None)
        if f is not None:
            r = f(a, b)
            if r is not NotImplemented:
                return r
        return self.div(a, b)

    def pow(self, a, b):
        return a ** b

    def mod(self, a, b):
        if isinstance(a, str):
            return "<formatted>"
        return a % b

    def matmul(self, a, b):
        return a @ b

    def dct(self, x):
        return TDict(x)

    def lst(self, x):
        return TList(x)

    def loop(self, ident, mod, qual, names, kind, it):
        return NativeLoop(it)

    # builtins
    def isinstance_(self, x, c):
        h = getattr(type(x), "_rkv_isinstance", None)
        if h is not None:
            cs = c if isinstance(c, tuple) else (c,)
            return any(h(x, k) for k in cs)
        if isinstance(c, Missing) or (isinstance(c, tuple) and any(isinstance(k, Missing) for k in c)):
            raise Unsupported("isinstance against a type without a contract model")
        return isinstance(x, c)

    def float_(self, *a):
        if a and hasattr(a[0], "_rkv_float"):
            return a[0]._rkv_float()
        if a and isinstance(a[0], Missing):
            raise Unsupported("float of a value without a model")
        return float(*a)

    def int_(self, *a):
        if a and hasattr(a[0], "_rkv_int"):
            return a[0]._rkv_int()
        if a and isinstance(a[0], SInt):
            return a[0]
        return int(*a)

    def abs_(self, x):
        return abs(x)

    def max_(self, *a, **k):
        return self._minmax(a, k, lambda x, y: y > x, max)

    def min_(self, *a, **k):
        return self._minmax(a, k, lambda x, y: y < x, min)

    def _minmax(self, a, k, better, native):
        if k:
            return native(*a, **k)
        items = list(a[0]) if len(a) == 1 else list(a)
        if not items:
            return native(items)
        r = items[0]
        for x in items[1:]:
            r = self.pick(r, x, better)
        return r

    def pick(self, r, x, better):
        return x if better(r, x) else r

    def len_(self, x):
        h = getattr(x, "_rkv_len", None)
        if h is not None:
            return h()
        return len(x)

    def range_(self, *a):
        if any(isinstance(x, SInt) for x in a):
            return SRange(*a)
        return range(*a)

    def callable_(self, x):
        return callable(x)

    def round_(self, x, *a):
        if hasattr(x, "_rkv_round"):
            return x._rkv_round(*a)
        return round(x, *a)

    def builtins(self):
        fl, it, cx = self.float_, self.int_, self.complex_
        return {"isinstance": self.isinstance_, "abs": self.abs_, "max": self.max_, "min": self.min_, "len": self.len_,
                "range": self.range_, "print": lambda *a, **k: None, "round": self.round_,
                "float": typelike(float, fl), "int": typelike(int, it), "complex": typelike(complex, cx)}

    def complex_(self, *a):
        return complex(*a)


def typelike(t, f):
    """float/int/complex: callable through f, still usable as a type in isinstance and as a dtype."""
    meta = type("M", (type,), {"__call__": lambda cls, *a, **k: f(*a, **k), "__instancecheck__": lambda cls, o: isinstance(o, t),
                               "__eq__": lambda cls, o: o is t or o is cls or getattr(o, "_rkv_type", None) is t, "__hash__": lambda cls: hash(t),
                               "__repr__": lambda cls: t.__name__})
    return meta(t.__name__, (), {"_rkv_type": t})


class SRange:
    def __init__(self, *a):
        if len(a) == 1:
            a = (0,) + a
        if len(a) == 3 and a[2] != 1:
            raise Unsupported("symbolic range with a step")
        self.lo, self.hi = a[0], a[1]

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range")


class NativeLoop:
    """Loop executed as is (finite iterations)."""
    cut = False
    acc = False
    LIMIT = 20000

    def __init__(self, it):
        self.n = 0
        if it is not None:
            if isinstance(it, Missing):
                raise Unsupported(f"iteration over {it._name}")
            self.it = builtins.iter(it)
        self.nxt = None

    def tick(self):
        self.n += 1
        if self.n > self.LIMIT:
            raise Unsupported("loop without an invariant does not end within the unrolling limit")

    def more(self):
        self.tick()
        try:
            self.nxt = next(self.it)
        except StopIteration:
            return False
        return True

    def item(self):
        return self.nxt

    def back(self, loc):
        pass

    def done(self):
        pass

    def start(self, loc):
        raise AssertionError

    finish = start


# ---------------------------------------------------------------- cut loops with inferred inductive invariants (Houdini)
def _guarded(base, names, grow):
    """container class whose mutation inside a cut loop is noticed: the iteration explored is an arbitrary one, so the
    content of a container that lives longer than an iteration must be part of the loop state (solver lists) or unused"""
    ns = {"__slots__": ("rt", "birth")}
    for n in names:
        def f(self, *a, _n=n, **k):
            self.rt.touched(self, _n in grow)
            return getattr(base, _n)(self, *a, **k)
        ns[n] = f

    def init(self, rt, x=()):
        base.__init__(self, x)
        self.rt, self.birth = rt, rt.epoch
    ns["__init__"] = init
    return type("C" + base.__name__[1:], (base,), ns)


CList = _guarded(TList, "append extend __iadd__ __setitem__ __delitem__ pop insert remove clear sort reverse __imul__".split(),
                 ("append", "extend", "__iadd__"))
CDict = _guarded(TDict, "__setitem__ __delitem__ pop popitem clear update setdefault __ior__".split(), ())


DEBUG = bool(os.environ.get("RKV_DEBUG"))


class Restart(core.Control):
    pass


class LoopInfo:
    """What is known about one source loop across exploration rounds."""

    def __init__(self):
        self.fields = set()      # (root index, field) modified in the body
        self.lists = set()       # (root index, field) whose list content is modified
        self.kinds = {}          # var -> domain kind (joined)
        self.dropped = set()     # candidate invariants refuted so far
        self.kept = set()


class CutLoop:
    acc = False
    cut = True

    def __init__(self, rt, key, names, kind, it):
        self.rt, self.key, self.names, self.kind = rt, key, names, kind
        self.info = rt.loops.setdefault(key, LoopInfo())
        self.it = it
        self.started = False
        if kind == "for":
            if isinstance(it, range):
                it = SRange(it.start, it.stop)
                if self.it.step != 1:
                    raise Unsupported("cut loop over a range with a step")
            if not isinstance(it, SRange):
                raise Unsupported("cut loop over something other than a range")
            self.it = it
            self.j = None

    # --- program state seen by the loop
    def state(self, loc):
        out = {}
        for n in self.names:
            if n in loc:
                out[("l", n)] = loc[n]
        for i, r in enumerate(self.rt.roots):
            for f, v in vars(r).items():
                out[("f", i, f)] = v
        if self.kind == "for":
            out[("j",)] = self.j
        return out

    def start(self, loc):
        rt, info = self.rt, self.info
        self.started = True
        if self.kind == "for":
            self.j = self.it.lo
        st = self.state(loc)
        mod = {("l", n) for n in self.names} | {("f",) + f for f in info.fields}
        if self.kind == "for":
            mod.add(("j",))
        self.entry = st
        rt.at_head(self)
        # 1. candidates hold on entry
        rt.check_cands(info, [c for c in rt.candidates(self, st, mod) if c[0] not in info.dropped], st, "on entry")
        rt.loop_entry(self, st)
        # 2. havoc
        new = dict(st)
        for v in mod:
            if v in st:
                new[v] = rt.havoc(v, st[v], info.kinds.get(v))
            elif v[0] == "l":
                new[v] = Poison(v[1])
        for i, f in info.fields:
            if ("f", i, f) in new:
                vars(rt.roots[i])[f] = new[("f", i, f)]
        rt.havoc_ghost(self)
        for i, f in info.lists:
            lst = vars(rt.roots[i]).get(f)
            if isinstance(lst, list):
                rt.havoc_list(i, f, lst, info)
        if self.kind == "for":
            self.j = new[("j",)]
            c = core.ctx()
            c.assume(iexpr(self.j) >= iexpr(self.it.lo))
            c.assume(z3.Or(iexpr(self.j) <= iexpr(self.it.hi), iexpr(self.j) == iexpr(self.it.lo)))
        # 3. assume the invariant
        for name, fn in rt.candidates(self, new, mod):
            if name not in info.dropped:
                e = rt.eval_cand(fn, new)
                if e is not None:
                    core.ctx().assume(e)
                    info.kept.add(name)
        rt.epoch += 1
        self.heap = rt.heap()
        self.head = dict(new)
        self.headlists = {k: (v, len(v)) for k, v in new.items() if isinstance(v, list)}
        rt.after_head(self, new)
        return tuple(new.get(("l", n), Poison(n)) for n in self.names)

    def tick(self):
        self.rt.iteration(self)

    def more(self):
        c = core.ctx()
        if c.decide(z3.And(iexpr(self.j) < iexpr(self.it.hi))):
            self.rt.iteration(self)
            return True
        return False

    def item(self):
        r = self.j
        self.j = self.j + 1
        return r

    def back(self, loc):
        rt, info = self.rt, self.info
        st = self.state(loc)
        changed = False
        for k, v in st.items():
            if k[0] == "f":
                if (k not in self.head or self.head[k] is not v) and (k[1], k[2]) not in info.fields:
                    if k in self.head and rt.same_value(self.head[k], v):
                        continue
                    info.fields.add((k[1], k[2]))
                    changed = True
                if isinstance(v, list) and k in self.headlists and self.headlists[k][0] is v and len(v) != self.headlists[k][1] \
                        and (k[1], k[2]) not in info.lists:
                    info.lists.add((k[1], k[2]))
                    changed = True
        mod = {("l", n) for n in self.names} | {("f",) + f for f in info.fields}
        if self.kind == "for":
            mod.add(("j",))
        for k in mod:
            if k in st and k in self.head:
                nk = rt.join_kind(info.kinds.get(k), self.head[k], st[k])
                if nk != info.kinds.get(k):
                    info.kinds[k] = nk
                    changed = True
        if changed:
            rt.restart = True
            raise PathEnd()
        new = rt.heap()
        for k in set(new) | set(self.heap):
            a, b = self.heap.get(k), new.get(k)
            if a is None or b is None or not (a[1] is b[1] and a[2] == b[2] or rt.same_value(a[1], b[1])):
                raise Unsupported(f"the loop changes {k[1]} of an object outside its state")
        rt.pre_back(self, st)
        rt.check_cands(info, [c for c in rt.candidates(self, st, mod) if c[0] not in info.dropped], st, "not preserved")
        rt.at_back(self, st)
        raise PathEnd()

    def finish(self, loc):
        raise AssertionError

    def done(self):
        pass


def iexpr(x):
    return x.e if isinstance(x, SInt) else z3.IntVal(int(x))


class CutRuntime(Runtime):
    """Runtime whose loops are cut; subclasses give domain, ghosts and candidate templates."""

    def __init__(self):
        super().__init__()
        self.loops = {}
        self.restart = False
        self.roots = []
        self.counter = {}
        self.epoch = 0

    def begin(self, roots):
        """start of one path"""
        self.roots = roots
        self.epoch = 0

    def lst(self, x):
        return CList(self, x)

    def dct(self, x):
        return CDict(self, x)

    def touched(self, x, grow):
        if x.birth < self.epoch and not (grow and any(v is x for r in self.roots for v in vars(r).values())):
            raise Unsupported("a container that outlives the iteration is modified in a cut loop")

    def builtins(self):
        b = super().builtins()
        b["list"] = typelike(list, lambda *a: CList(self, *a))
        b["dict"] = typelike(dict, lambda *a, **k: CDict(self, dict(*a, **k)))

        def noset(*a):
            if self.epoch or a == ():
                raise Unsupported("set")
            return set(*a)
        b["set"] = typelike(set, noset)
        return b

    def heap(self):
        """attributes of the objects a loop may reach through the solver, its classes and module globals"""
        out, seen = {}, set()

        def note(o, d):
            for a, v in d.items():
                if not a.startswith("__") or a.startswith("__t"):
                    out[(id(o), a)] = (o, v, len(v) if isinstance(v, (list, dict, set)) else 0)

        def visit(o, depth):
            if id(o) in seen or not (getattr(type(o), "__module__", "") or "").startswith("rkstiff") or not hasattr(o, "__dict__"):
                return
            seen.add(id(o))
            note(o, vars(o))
            if depth:
                for v in list(vars(o).values()):
                    visit(v, depth - 1)
        for r in self.roots:
            for v in list(vars(r).values()):
                visit(v, 2)
            for k in type(r).__mro__:
                if k is not object:
                    note(k, vars(k))
                    for f in vars(k).values():
                        g = getattr(f, "__globals__", None)
                        if g is not None and str(g.get("__name__", "")).startswith("rkstiff") and id(g) not in seen:
                            seen.add(id(g))
                            note(g, g)
        return out

    def loop(self, ident, mod, qual, names, kind, it):
        if self.native(mod, qual, kind, it):
            return NativeLoop(it)
        return CutLoop(self, (mod, qual, ident), names, kind, it)

    def native(self, mod, qual, kind, it):
        return kind == "for" and not isinstance(it, SRange)

    def eval_cand(self, fn, st):
        try:
            return fn(st)
        except (KeyError, Unsupported, TypeError, AttributeError):
            return None

    def check_cands(self, info, cands, st, why):
        """drop the candidates that do not follow from the path condition"""
        c = core.ctx()
        c.push()
        try:
            es = []
            for name, fn in cands:
                e = self.eval_cand(fn, st)
                if e is None or e is False:
                    self.drop(info, name, why)
                elif e is not True:
                    es.append((name, e))
            # models refute many candidates at once
            while es:
                m = c.refute(z3.And([e for _, e in es]))
                if m is None:
                    break
                if m is False:      # solver gave up: one by one
                    if DEBUG:
                        print("  gave up on batch of", len(es))
                    for name, e in es:
                        if not c.valid(e):
                            self.drop(info, name, why)
                    break
                left = []
                for name, e in es:
                    if z3.is_false(m.eval(e, model_completion=True)):
                        self.drop(info, name, why)
                    else:
                        left.append((name, e))
                if len(left) == len(es):
                    raise Unsupported("model evaluation of candidates failed")
                es = left
        finally:
            c.pop()

    def drop(self, info, name, why):
        info.dropped.add(name)
        if DEBUG:
            print("drop", name, why)
        info.kept.discard(name)
        self.restart = True

    def same_value(self, a, b):
        return a is b

    def join_kind(self, kind, a, b):
        return kind

    # hooks
    def at_head(self, loop): pass
    def loop_entry(self, loop, st): pass
    def havoc_ghost(self, loop): pass
    def after_head(self, loop, st): pass
    def iteration(self, loop): pass
    def at_back(self, loop, st): pass
    def pre_back(self, loop, st): pass

    def havoc(self, var, value, kind):
        raise NotImplementedError

    def havoc_list(self, i, f, lst, info):
        raise Unsupported("list modified in a cut loop")

    def candidates(self, loop, st, mod):
        return []


def houdini(rt, run, report, rounds=40, **kw):
    """Explore until the loop invariants are stable; only the last round's obligations are recorded."""
    for _ in range(rounds):
        rt.restart = False
        r = core.Report()
        outs = core.explore(run, r, **kw)
        if not rt.restart:
            for key, info in rt.loops.items():
                r.notes.append(f"loop {key[0]}:{key[1]}: inductive invariant with {len(info.kept)} conjuncts")
            report.merge(r)
            return outs
    raise Unsupported("loop invariants did not stabilise")
