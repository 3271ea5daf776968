"""Deductive verification core: path-exploring symbolic execution of the real code.

The functions of /repo are extracted mechanically (see extract.py), executed by CPython on symbolic
values, and every path is explored; loops are cut with inductive invariants, calls across a contract
boundary go to contract stubs.  Obligations met on the way are discharged by z3 (arithmetic) or by exact
normal forms (schemes); each is recorded in a Report.
"""
import os
import time
import z3

# ---------------------------------------------------------------- control flow of the engine


class Control(BaseException):
    """Never caught by the code under verification (it is not an Exception)."""


class PathEnd(Control):
    """This path has been covered (e.g. the back edge of a cut loop)."""


class Infeasible(Control):
    """The path condition is unsatisfiable."""


class Unsupported(Control):
    """The code uses a construct outside the verifier's reach: the function falls to its bounded stand-in."""


class Budget(Control):
    pass


# ---------------------------------------------------------------- report
PROVED, REFUTED, UNKNOWN = "proved", "refuted", "unknown"


class Report:
    def __init__(self):
        self.obl = {}          # name -> dict(counts)
        self.functions = {}    # function -> set of obligation names
        self.unsupported = []  # (function, reason)
        self.assumptions = []
        self.bounded = []      # bounded stand-ins
        self.backend = {}
        self.solver_time = 0.0
        self.paths = 0
        self.notes = []

    def add(self, name, status, fn, backend="z3", t=0.0, detail=""):
        o = self.obl.setdefault(name, {"fn": fn, PROVED: 0, REFUTED: 0, UNKNOWN: 0, "detail": [], "backend": backend})
        o[status] += 1
        if status != PROVED and len(o["detail"]) < 5:
            o["detail"].append(str(detail)[:1500])
        self.functions.setdefault(fn, set()).add(name)
        self.backend[backend] = self.backend.get(backend, 0) + (status == PROVED)
        self.solver_time += t

    def merge(self, other):
        for n, o in other.obl.items():
            m = self.obl.setdefault(n, {"fn": o["fn"], PROVED: 0, REFUTED: 0, UNKNOWN: 0, "detail": [], "backend": o["backend"]})
            for s in (PROVED, REFUTED, UNKNOWN):
                m[s] += o[s]
            m["detail"] += o["detail"]
        for f, s in other.functions.items():
            self.functions.setdefault(f, set()).update(s)
        self.unsupported += other.unsupported
        for a in other.assumptions:
            self.assume(a)
        self.bounded += other.bounded
        for b, k in other.backend.items():
            self.backend[b] = self.backend.get(b, 0) + k
        self.solver_time += other.solver_time
        self.paths += other.paths
        self.notes += other.notes

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def totals(self):
        n = sum(o[PROVED] + o[REFUTED] + o[UNKNOWN] for o in self.obl.values())
        d = sum(o[PROVED] for o in self.obl.values())
        return n, d

    def refuted(self):
        return [n for n, o in self.obl.items() if o[REFUTED]]

    def unknown(self):
        return [n for n, o in self.obl.items() if o[UNKNOWN] and not o[REFUTED]]


# ---------------------------------------------------------------- path context
CTX = None
DEBUGX = bool(os.environ.get("RKV_DEBUGX"))


class Ctx:
    def __init__(self, prefix, report, timeout=4000):
        self.prefix = prefix
        self.taken = []
        self.pending = []
        self.report = report
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout)
        self.atoms = {}
        self.trace = []
        self.data = {}
        self.nsym = 0
        self.floats = []       # known floating-point values (fl mode)
        self.t = 0.0
        self.lazy = []
        self.local = None
        self.localfacts = []
        self.added = set()

    # --- symbols and facts
    def fresh(self, base, sort="Real"):
        self.nsym += 1
        n = f"{base}!{self.nsym}"
        return z3.Int(n) if sort == "Int" else z3.Bool(n) if sort == "Bool" else z3.Real(n)

    def assume(self, e):
        if isinstance(e, bool):
            if not e:
                raise Infeasible()
            return
        self.solver.add(e)

    def sat(self, e):
        return self.check(e)[0]

    def check(self, e):
        """satisfiability of the path condition and e; facts registered as lazy are added where a model violates them"""
        t = time.time()
        s = self.solver
        if not self.lazy:
            r = s.check(e)
            m = s.model() if r == z3.sat else None
            self.t += time.time() - t
            return r, m
        done = self.added
        while True:
            r = s.check(e)
            if r != z3.sat:
                m = None
                break
            m = s.model()
            bad = [i for i, a in enumerate(self.lazy) if i not in done and z3.is_false(m.eval(a, model_completion=True))]
            if not bad:
                break
            for i in bad:
                s.add(self.lazy[i])
                done.add(i)
            if time.time() - t > 30:
                r, m = z3.unknown, None
                break
        self.t += time.time() - t
        return r, m

    def decide(self, e):
        """branch on a z3 condition"""
        if isinstance(e, bool):
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.local is not None:
            return self.decide_local(e)
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            can_t = self.sat(e) != z3.unsat
            can_f = self.sat(z3.Not(e)) != z3.unsat
            if not can_t and not can_f:
                raise Infeasible()
            if can_t and can_f:
                v = True
                self.pending.append(self.taken + [False])
            else:
                v = can_t
        self.taken.append(v)
        self.solver.add(e if v else z3.Not(e))
        return v

    def decide_local(self, e):
        """decision inside a bounded variable's scope: explored by the enclosing local exploration, not as a path"""
        if hasattr(self.local, "truth"):
            return self.local.truth(e)
        can_t = self.sat(e) != z3.unsat
        can_f = self.sat(z3.Not(e)) != z3.unsat
        if not can_t and not can_f:
            raise Infeasible()
        if can_t != can_f:
            return can_t
        if self.local == "nofork":
            raise Unsupported("condition left open in the scope of a bound index")
        prefix, taken, pending = self.local
        i = len(taken)
        if i < len(prefix):
            v = prefix[i]
        else:
            v = True
            pending.append(taken + [False])
        taken.append(v)
        self.solver.add(e if v else z3.Not(e))
        self.localfacts.append(e if v else z3.Not(e))
        return v

    def free(self, key):
        """branch on an uninterpreted condition, consistently along the path"""
        if key in self.atoms:
            return self.atoms[key]
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = True
            self.pending.append(self.taken + [False])
        self.taken.append(v)
        self.atoms[key] = v
        return v

    def choose(self, key, options):
        """n-ary free choice"""
        for o in options[:-1]:
            if self.free((key, o)):
                return o
        return options[-1]

    def push(self):
        self.solver.push()
        t = self.data.get("fl")
        self._saved = t.snapshot() if t is not None else None
        self._lz = (len(self.lazy), set(self.added))

    def pop(self):
        self.solver.pop()
        if self._saved is not None:
            self.data["fl"].restore(self._saved)
        n, self.added = self._lz
        del self.lazy[n:]

    def refute(self, e):
        """model of not e; None if e is valid; False if unknown"""
        r, m = self.check(z3.Not(e))
        return m if r == z3.sat else None if r == z3.unsat else False

    # --- obligations
    def prove(self, name, e, fn, detail=""):
        t = time.time()
        if isinstance(e, bool):
            st, d = (PROVED, "") if e else (REFUTED, detail)
        else:
            r, m = self.check(z3.Not(e))
            if r == z3.unsat:
                st, d = PROVED, ""
            elif r == z3.sat:
                st, d = REFUTED, f"{detail} counterexample: " + ", ".join(f"{x}={short(m[x])}" for x in list(m)[:40])
            else:
                st, d = UNKNOWN, f"{detail} z3: {self.solver.reason_unknown()}"
        dt = time.time() - t
        self.report.add(name, st, fn, "z3" if not isinstance(e, bool) else "symbolic execution", dt, d)
        return st == PROVED

    def valid(self, e):
        if isinstance(e, bool):
            return e
        r = self.sat(z3.Not(e))
        if r == z3.unknown and os.environ.get("RKV_DEBUG"):
            print("   unknown:", str(e)[:200].replace("\n", " "))
        return r == z3.unsat


def ctx():
    return CTX


def short(v):
    try:
        return f"{float(v.as_fraction()):.17g}"
    except (AttributeError, OverflowError, ValueError):
        return str(v)[:60]


def explore(run, report, max_paths=4000, budget=240.0, timeout=4000, stop=False):
    """run(ctx) on every feasible path; returns list of (outcome, ctx)."""
    global CTX
    stack = [[]]
    outs = []
    t0 = time.time()
    n = 0
    while stack:
        prefix = stack.pop()
        n += 1
        if n > max_paths or time.time() - t0 > budget:
            CTX = None
            raise Unsupported(f"more than {max_paths} paths" if n > max_paths else f"path exploration exceeded {budget:.0f} s")
        c = Ctx(prefix, report, timeout)
        CTX = c
        try:
            r = ("ok", run(c))
        except PathEnd:
            r = ("end", None)
        except Infeasible:
            r = ("infeasible", None)
        finally:
            CTX = None
        report.solver_time += c.t
        if stop and report.refuted():
            return outs
        stack.extend(c.pending)
        if r[0] != "infeasible":
            report.paths += 1
            outs.append((r, c))
    return outs


# ---------------------------------------------------------------- symbolic booleans and integers
class SBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.decide(self.e)

    def __and__(self, o):
        return mkbool(z3.And(self.e, boolexpr(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, boolexpr(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        return mkbool(self.e == boolexpr(o))

    def __ne__(self, o):
        return mkbool(self.e != boolexpr(o))
    __hash__ = None

    def any(self):
        return self

    def all(self):
        return self

    def item(self):
        return self


def boolexpr(o):
    if isinstance(o, SBool):
        return o.e
    if isinstance(o, bool):
        return z3.BoolVal(o)
    raise Unsupported(f"boolean operation with {type(o).__name__}")


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


class SInt:
    """symbolic Python int"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def _o(self, o):
        if isinstance(o, SInt):
            return o.e
        if isinstance(o, bool):
            return z3.IntVal(int(o))
        if isinstance(o, int):
            return z3.IntVal(o)
        return None

    def _bin(self, o, f, rev=False):
        x = self._o(o)
        if x is None:
            return NotImplemented
        return mkint(f(x, self.e) if rev else f(self.e, x))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __neg__(self): return mkint(-self.e)

    def __mul__(self, o):
        x = self._o(o)
        if x is None:
            return NotImplemented
        if not (z3.is_int_value(z3.simplify(x)) or z3.is_int_value(z3.simplify(self.e))):
            if CTX is not None and CTX.data.get("nonlinear"):
                return mkint(self.e * x)
            h = CTX.data.get("intmul") if CTX is not None else None
            r = h(self.e, x) if h is not None else None
            if r is not None:
                return r
            raise Unsupported("product of two symbolic integers")
        return mkint(self.e * x)
    __rmul__ = __mul__

    def __pos__(self): return self

    def __abs__(self): return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported("power of a symbolic integer")

    def _nobin(self, o):
        if type(o) in (int, bool, SInt):
            raise Unsupported("this operation on a symbolic integer")
        return NotImplemented
    __or__ = __ror__ = __xor__ = __rxor__ = __lshift__ = __rlshift__ = __rshift__ = __rrshift__ = __rpow__ = _nobin
    __truediv__ = __rtruediv__ = _nobin

    def __and__(self, o):
        """only with masks 2**k - 1 (remainder)"""
        if type(o) is int and o >= 0 and (o & (o + 1)) == 0:
            return mkint(self.e % (o + 1))
        return self._nobin(o)
    __rand__ = __and__

    def __divmod__(self, o):
        return self // o, self % o

    def _cmp(self, o, f):
        x = self._o(o)
        if x is None:
            return NotImplemented
        return mkbool(f(self.e, x))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented and o is None else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented and o is None else r

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __mod__(self, o):
        h = CTX.data.get("mod")
        if h is not None:
            r = h(self, o)
            if r is not None:
                return r
        x = self._o(o)
        if x is None:
            return NotImplemented
        if not z3.is_int_value(z3.simplify(x)):
            raise Unsupported("remainder by a symbolic number")
        if z3.simplify(x).as_long() == 0:
            raise ZeroDivisionError("integer modulo by zero")
        return mkint(self.e % x)

    def __rmod__(self, o):
        x = self._o(o)
        if x is None:
            return NotImplemented
        return SInt(x).__mod__(self)

    def __rdivmod__(self, o):
        x = self._o(o)
        if x is None:
            return NotImplemented
        return SInt(x) // self, SInt(x) % self

    def __rfloordiv__(self, o):
        x = self._o(o)
        if x is None:
            return NotImplemented
        return SInt(x) // self

    def __floordiv__(self, o):
        x = self._o(o)
        h = CTX.data.get("intdiv")
        r = h(self, o) if h is not None else None
        if r is not None:
            return r
        if x is None or not z3.is_int_value(z3.simplify(x)) or z3.simplify(x).as_long() <= 0:
            raise Unsupported("floor division of a symbolic number")
        return mkint(self.e / x)

    def __bool__(self):
        return CTX.decide(self.e != 0)

    def __hash__(self):
        raise Unsupported("hash of a symbolic integer")

    def __index__(self):
        raise Unsupported("symbolic integer used as an index")

    def __format__(self, s): return "<int>"
    def __repr__(self): return f"<SInt {self.e}>"


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


MINE = ("SInt", "SBool", "XR", "Op", "Opaque", "Poison", "Missing", "Shim", "FakeLogger", "TList", "_Stub", "Foreign", "Sym", "NDArray", "World",
        "Runtime", "El", "Arr", "FL", "Vec", "SRange", "rkv", "_rkv_", "U", "Str", "Log", "LogModule", "Lib", "Fn", "Method", "TDict")


def genuine(x):
    """An exception that escaped from the code under verification: its own, or an artefact of the symbolic values (then Unsupported)."""
    import re
    if isinstance(x, (NotImplementedError, RecursionError)):
        raise Unsupported(f"{type(x).__name__} {x}")
    if isinstance(x, (TypeError, AttributeError, NameError, ImportError)):
        ws = set(re.findall(r"\w+", str(x)))
        if ws & set(MINE):
            raise Unsupported(f"{type(x).__name__}: {x}")
    tb = x.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    from .extract import REPO
    if last is not None and not last.startswith(REPO + os.sep) and not isinstance(x, (ValueError, ZeroDivisionError, OverflowError)) \
            and "/rkv/" in last and not getattr(x, "_rkv_contract", False):
        raise Unsupported(f"{type(x).__name__}: {x}")
    return x


class Opaque:
    """A value nothing is known about; only printing it is allowed."""

    def __init__(self, why="?"):
        self.why = why

    def __format__(self, s): return "<?>"
    def __repr__(self): return f"<opaque {self.why}>"
    def __bool__(self): raise Unsupported("branch on " + self.why)


class Poison:
    """Value of a variable that is not known on this path (havoced and untyped)."""

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def __getattr__(self, a):
        raise Unsupported(f"use of the loop variable {self._n} before it is known")

    def _bad(self, *a, **k):
        raise Unsupported(f"use of the loop variable {object.__getattribute__(self, '_n')} before it is known")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __call__ = __getitem__ = __iter__ = __len__ = _bad
