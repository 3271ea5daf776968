"""Shared helpers of the concrete oracles.  Runs under /opt/venv/bin/python against /repo.

Every oracle consists of  gen(rng, tier) -> iterator of JSON-able cases  and
run(case) -> None (holds) or a string saying what failed.
"""
import os
import sys
import math
import warnings

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
REPO = os.environ.get("RKV_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import logging  # noqa: E402
import numpy as np  # noqa: E402

warnings.simplefilter("ignore")
np.seterr(all="ignore")
logging.raiseExceptions = False


def quiet_logs():
    """Keep log output of the code under test out of the check's output."""
    root = logging.getLogger("rkstiff")
    if not any(isinstance(h, logging.NullHandler) for h in root.handlers):
        root.addHandler(logging.NullHandler())
    logging.lastResort = None
    logging.StreamHandler.emit = lambda self, record: None


quiet_logs()

SPECS = [
    ("IF4", "diag"), ("IF4", "full"),
    ("ETD4", "diag"), ("ETD4", "full"),
    ("ETD5", "diag"), ("ETD5", "full"),
    ("IF34", "diag"), ("IF34", "full"), ("IF34", "eig"),
    ("ETD34", "diag"), ("ETD34", "full"), ("ETD34", "eig"),
    ("ETD35", "diag"), ("ETD35", "full"), ("ETD35", "eig"),
    ("IF45DP", "diag"),
]
CS = ("IF4", "ETD4", "ETD5")
AS = ("IF34", "ETD34", "ETD35", "IF45DP")
ETD = ("ETD4", "ETD5", "ETD34", "ETD35")
ORDER = {"IF4": 4, "ETD4": 4, "IF34": 4, "ETD34": 4, "ETD5": 5, "ETD35": 5, "IF45DP": 5}
QORD = {"IF34": 4, "ETD34": 4, "ETD35": 4, "IF45DP": 5}


def cls(name):
    import importlib
    return getattr(importlib.import_module("rkstiff." + name.lower()), name)


def make(name, rep, lin, nl, config=None, etd_config=None, loglevel=None):
    kw = {}
    if config is not None and name in AS:
        kw["config"] = config
    if etd_config is not None and name in ETD:
        kw["etd_config"] = etd_config
    if loglevel is not None:
        kw["loglevel"] = loglevel
    if rep == "eig":
        kw["diagonalize"] = True
    return cls(name)(lin, nl, **kw)


def is_as(name):
    return name in AS


def sconfig(**kw):
    from rkstiff.solveras import SolverConfig
    return SolverConfig(**kw)


def econfig(**kw):
    from rkstiff.etd import ETDConfig
    return ETDConfig(**kw)


class Problem:
    """A random smooth problem u' = L u + N(u) of small dimension, from a seed.

    kind: 'real' (real L, real state), 'cplx'.  scale: size of the spectrum of L.
    The nonlinearity is a cubic polynomial map (analytic), so every solver applies.
    """

    def __init__(self, seed, rep, n=3, scale=1.0, kind="cplx", nlscale=1.0, stable=True):
        g = np.random.default_rng(seed)
        self.n, self.rep, self.kind = n, rep, kind

        def rnd(*shape):
            a = g.uniform(-1, 1, shape)
            if kind == "cplx":
                a = a + 1j * g.uniform(-1, 1, shape)
            return a

        if rep == "diag":
            d = rnd(n)
            if stable:
                d = -np.abs(d.real) + 1j * d.imag if kind == "cplx" else -np.abs(d)
            self.L = scale * d
        else:
            # well-conditioned, diagonalizable, invertible, distinct eigenvalues
            for _ in range(100):
                a = rnd(n, n)
                v = seed % 11                  # special structures among the generic matrices
                if v == 0 or v == 1:
                    a = (a + a.T) / 2
                elif v == 2:
                    np.fill_diagonal(a, a.diagonal().real)          # real trace
                elif v == 3:
                    a = (a + a.conj().T) / 2                        # Hermitian
                elif v == 4 and kind == "cplx":
                    a = 1j * (a + a.conj().T) / 2                   # skew-Hermitian
                elif v == 5:
                    a = a - np.trace(a) / n * np.eye(n)             # no trace
                elif v == 6:
                    a = np.triu(a)
                elif v == 7:
                    np.fill_diagonal(a, 0)
                w, s = np.linalg.eig(a)
                if np.linalg.cond(s) < 20 and np.linalg.cond(a) < 50:
                    break
            a = a / np.max(np.abs(w))
            self.L = scale * a
        self.q2 = nlscale * rnd(n, n, n) / n
        self.q1 = nlscale * rnd(n, n) / n
        self.q0 = nlscale * rnd(n)
        self.q3 = nlscale * rnd(n)
        self.u0 = rnd(n)

    def nl(self, u):
        return self.q0 + self.q1 @ u + np.einsum("ijk,j,k->i", self.q2, u, u) + self.q3 * u**3 / 3

    def rhs(self, u):
        return (self.L * u if self.L.ndim == 1 else self.L @ u) + self.nl(u)

    def exact(self, u, h, steps=None):
        """Taylor-series-free reference: extrapolated implicit-free high order RK in double (GBS)."""
        return gbs(self.rhs, u, h)


def gbs(f, u, h, m=1, k=9):
    """Gragg-Bulirsch-Stoer extrapolation (order 2k) with m basic steps: reference solution."""
    u = np.array(u, dtype=complex)
    hh = h / m
    seq = [2 * (i + 1) for i in range(k)]
    for _ in range(m):
        tab = []
        for i, ns in enumerate(seq):
            d = hh / ns
            y0, y1 = u, u + d * f(u)
            for _j in range(1, ns):
                y0, y1 = y1, y0 + 2 * d * f(y1)
            s = (y0 + y1 + d * f(y1)) / 2
            row = [s]
            for j in range(1, i + 1):
                r = (seq[i] / seq[i - j]) ** 2
                row.append(row[j - 1] + (row[j - 1] - tab[i - 1][j - 1]) / (r - 1))
            tab.append(row)
        u = tab[-1][-1]
    return u


def relerr(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return math.inf
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return 0.0 if np.array_equal(np.isfinite(a), np.isfinite(b)) and np.allclose(
            np.where(np.isfinite(a), a, 0), np.where(np.isfinite(b), b, 0), rtol=1e-8) else math.inf
    s = max(np.max(np.abs(b), initial=0.0), np.max(np.abs(a), initial=0.0), 1e-300)
    return float(np.max(np.abs(a - b), initial=0.0) / s)


def same(a, b, tol=1e-9):
    return relerr(a, b) <= tol


def seeds(rng, k):
    return [int(x) for x in rng.integers(0, 2**31 - 1, size=k)]


def raises(exc, fn, *a, **k):
    """None if fn raises exc; otherwise a message."""
    try:
        r = fn(*a, **k)
    except exc:
        return None
    except Exception as e:  # noqa: BLE001
        return f"raised {type(e).__name__}({e}) instead of {getattr(exc, '__name__', exc)}"
    return f"returned {r!r} instead of raising {getattr(exc, '__name__', exc)}"
