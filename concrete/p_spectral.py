"""Concrete oracles for C17..C23 (grids, derivatives, transforms, models)."""
import math
from fractions import Fraction as Fr
import numpy as np
import scipy.special as sp
from common import seeds, raises, relerr


def close(a, b, tol=1e-11, scale=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f"shape {a.shape} instead of {b.shape}"
    s = scale if scale is not None else max(np.max(np.abs(b), initial=0), 1e-300)
    d = np.max(np.abs(a - b), initial=0)
    return None if d <= tol * s else f"differs by {d:.3g} (scale {s:.3g})"


def rclose(a, b, tol, floor=0.0):
    """elementwise relative comparison"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f"shape {a.shape} instead of {b.shape}"
    bad = ~(np.abs(a - b) <= tol * np.abs(b) + floor)
    if not bad.any():
        return None
    i = tuple(int(q) for q in np.argwhere(bad)[0])
    return f"entry {i} is {a[i]!r}, expected {b[i]!r}"


# ------------------------------------------------------------------ C17
def gen_C17(rng, tier):
    for n in list(range(4, 130, 2)) + [256, 1000, 1024]:
        yield dict(kind="ok", n=n, a=0.0, b=float(2 * np.pi))
        yield dict(kind="ok", n=n, a=-1.0, b=1.0)
        yield dict(kind="ok", n=n, a=0.0, b=1 / 3)
    for s in seeds(rng, 400 if tier == "quick" else 8000):
        g = np.random.default_rng(s)
        a = float(g.normal() * 10.0 ** g.integers(-2, 4))
        yield dict(kind="ok", n=int(2 * g.integers(2, 400)), a=a, b=a + float(10.0 ** g.uniform(-2, 3)))
    for n in (4, 6, 130, 2048, 65536, 131072, 99998):
        for a, b in ((0.0, 1e-12), (-1e-9, 1e-9), (0.0, 1e9), (-1e6, 1e6), (1000.0, 1001.0), (-3, 4), (0, 1), (2, 7), (-2 * np.pi, 0.0)):
            yield dict(kind="ok", n=n, a=a, b=b)
    yield dict(kind="default", n=16, a=0, b=0)
    for n in ("0", "1", "2", "3", "5", "7", "-4", "-3", "4.0", "'8'", "None", "101", "2.5", "-2", "np.float64(8)", "65537", "100001", "-65536"):
        yield dict(kind="bad", n=n)


def run_C17(case):
    from rkstiff.grids import construct_x_kx_rfft, construct_x_kx_fft
    k = case["kind"]
    if k == "bad":
        n = eval(case["n"], {"np": np})
        for f in (construct_x_kx_rfft, construct_x_kx_fft):
            m = raises((TypeError, ValueError), f, n)
            if m:
                return f"{f.__name__}({case['n']}) {m}"
        return None
    n, a, b = case["n"], case["a"], case["b"]
    for f in (construct_x_kx_rfft, construct_x_kx_fft):
        if k == "default":
            x, kx = f(n)
            a, b = 0.0, 2 * np.pi
        else:
            x, kx = f(n, a, b)
        j = np.arange(n)
        m = close(x, a + (b - a) * (j / n), scale=max(abs(a), abs(b)), tol=1e-14)
        if m:
            return f"{f.__name__}({n},{a!r},{b!r}): x {m}"
        kk = np.arange(n // 2 + 1) if "rfft" in f.__name__ else np.concatenate([np.arange(n // 2), np.arange(-(n // 2), 0)])
        m = rclose(kx, 2 * np.pi * kk / (b - a), tol=1e-12)
        if m:
            return f"{f.__name__}({n},{a!r},{b!r}): kx {m}"
    return None


# ------------------------------------------------------------------ C18
def gen_C18(rng, tier):
    for s in seeds(rng, 300 if tier == "quick" else 5000):
        g = np.random.default_rng(s)
        yield dict(kind=str(g.choice(["rfft", "fft"])), seed=s, N=int(g.integers(1, 70)), n=int(g.integers(0, 7)), Lx=float(10.0 ** (g.uniform(-1, 1) if g.random() < 0.7 else g.uniform(-9, 9))),
                   nyq=bool(g.integers(2)), amp=float(g.choice([1, 1, 1e-12, 1e9, 1e-100])), dt=str(g.choice(["f", "f", "f", "i", "one"])))
    for N in (128, 255, 1000):
        for kind in ("rfft", "fft"):
            for n in (1, 2, 3):
                yield dict(kind=kind, seed=N, N=N, n=n, Lx=2 * np.pi, nyq=False, amp=1.0, dt="f")
    for N in (1, 2, 3, 4, 5, 6):
        for kind in ("rfft", "fft"):
            for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16):
                yield dict(kind=kind, seed=N, N=N, n=n, Lx=2 * np.pi, nyq=False, amp=1.0, dt="f")
    for n in ("1.0", "'1'", "None", "2.5", "-1", "-3"):
        yield dict(kind="badn", n=n)
    for N in (4, 7, 8):
        yield dict(kind="shape", N=N)
    yield dict(kind="empty")
    for N in (24, 65, 256):
        for n in (1, 2, 3, 5, 7):
            for d in (1e-6, 1e-10, 1e-13):
                for f in ("rfft", "fft"):
                    yield dict(kind="tiny", f=f, N=N, n=n, d=d)


def run_C18(case):
    from rkstiff.derivatives import dx_rfft, dx_fft
    k = case["kind"]
    if k == "badn":
        n = eval(case["n"])
        e = ValueError if isinstance(n, int) else TypeError
        for f, N in ((dx_rfft, 5), (dx_fft, 8)):
            m = raises(e, f, np.arange(float(N)), np.ones(8), n)
            if m:
                return f"{f.__name__} with n={n!r} {m}"
        return None
    if k == "shape":
        N = case["N"]
        u = np.ones(N)
        for d in (-2, -1, 1, 2, N):
            m = raises(ValueError, dx_rfft, np.ones(N // 2 + 1 + d), u, 1)
            if m:
                return f"dx_rfft with kx of length {N//2+1+d} for input of length {N} {m}"
            m = raises(ValueError, dx_fft, np.ones(N + d), u, 1) if N + d >= 0 else None
            if m:
                return f"dx_fft with kx of length {N+d} for input of length {N} {m}"
        m = raises(TypeError, dx_rfft, np.ones(N // 2 + 1), u + 0j, 1) or raises(TypeError, dx_rfft, np.ones(N // 2 + 1), u + 0j, 0)
        return f"dx_rfft with complex input {m}" if m else None
    if k == "tiny":
        # a small high mode next to large low ones: its derivative is far above the rounding noise of the transform
        N, n, d = case["N"], case["n"], case["d"]
        x = 2 * np.pi * np.arange(N) / N
        q = (N - 1) // 2 - 1
        if case["f"] == "rfft":
            r = dx_rfft(np.arange(N // 2 + 1.0), np.sin(x) - 2.0 + d * np.cos(q * x), n)
            amp = np.fft.rfft(r)[q] * 2 / N
        else:
            r = dx_fft(np.fft.fftfreq(N, 1 / N), np.exp(1j * x) - 2j + d * np.exp(1j * q * x), n)
            amp = np.fft.fft(r)[q] / N
        want = d * (1j * q) ** n
        return None if abs(amp - want) < 0.05 * abs(want) else f"dx_{case['f']}(n={n}) of {d:g} times mode {q} next to mode 1: amplitude {amp:.4g}, expected {want:.4g}"
    if k == "empty":
        r = dx_rfft(np.array([]), np.array([]), 1)
        return None if r.shape == (0,) else f"dx_rfft of an empty array has shape {r.shape}"
    g = np.random.default_rng(case["seed"])
    N, n, Lx = case["N"], case["n"], case["Lx"]
    x = Lx * np.arange(N) / N
    if k == "rfft":
        kk = np.arange(N // 2 + 1)
        top = (N - 1) // 2
        kx = 2 * np.pi * kk / Lx
        ks = np.arange(0, top + 1)
        A, B = g.uniform(-1, 1, ks.size), g.uniform(-1, 1, ks.size)
        u = sum(A[i] * np.cos(2 * np.pi * q * x / Lx) + B[i] * np.sin(2 * np.pi * q * x / Lx) for i, q in enumerate(ks))
        ex = np.real(sum((A[i] - 1j * B[i]) * (2j * np.pi * q / Lx) ** n * np.exp(2j * np.pi * q * x / Lx) for i, q in enumerate(ks)))
        if case["nyq"] and N % 2 == 0 and n % 2 == 0:
            u = u + 0.7 * np.cos(np.pi * np.arange(N))
            ex = ex + 0.7 * np.real((1j * np.pi * N / Lx) ** n) * np.cos(np.pi * np.arange(N))
        f = dx_rfft
    else:
        kk = np.fft.fftfreq(N, 1 / N)
        kx = 2 * np.pi * kk / Lx
        ks = np.arange(-((N - 1) // 2), (N - 1) // 2 + 1)
        A = g.uniform(-1, 1, ks.size) + 1j * g.uniform(-1, 1, ks.size)
        u = sum(A[i] * np.exp(2j * np.pi * q * x / Lx) for i, q in enumerate(ks))
        ex = sum(A[i] * (2j * np.pi * q / Lx) ** n * np.exp(2j * np.pi * q * x / Lx) for i, q in enumerate(ks))
        if case["nyq"] and N % 2 == 0:
            q = -(N // 2)
            u = u + (0.7 - 0.2j) * np.exp(1j * np.pi * np.arange(N))
            ex = ex + (0.7 - 0.2j) * (2j * np.pi * q / Lx) ** n * np.exp(1j * np.pi * np.arange(N))
        f = dx_fft
    amp = case["amp"]
    if case["dt"] == "i" and n:
        u = np.round(u * 50).astype(int)              # integer samples: interpolated by the resolved modes
        w = (1j * kx) ** n * (np.fft.rfft(u) if k == "rfft" else np.fft.fft(u))
        ex = np.fft.irfft(w, N) if k == "rfft" else np.fft.ifft(w)
        amp = 50.0
    elif case["dt"] == "one":
        i = case["seed"] % ks.size                    # a single mode
        q = ks[i]
        u = np.cos(2 * np.pi * q * x / Lx) if k == "rfft" else np.exp(2j * np.pi * q * x / Lx)
        ex = (2j * np.pi * q / Lx) ** n * np.exp(2j * np.pi * q * x / Lx)
        ex = amp * (ex.real if k == "rfft" else ex)
        u = amp * u
    else:
        u, ex = amp * u, amp * ex
    uc, kc = np.array(u), kx.copy()
    r = f(kx, u, n) if n != 1 or case["seed"] % 2 else f(kx, u)
    if not np.array_equal(u, uc) or not np.array_equal(kx, kc):
        return f"{f.__name__} modified its input"
    sc = amp * (np.pi * N / Lx) ** n if n else amp
    m = close(r, ex, tol=1e-11, scale=sc * N)
    if m:
        return f"{f.__name__}(n={n}, {N} points): {m}"
    if n == 0 and not np.array_equal(r, u):
        return "n=0 does not return the input"
    return None


# ------------------------------------------------------------------ C19
def gen_C19(rng, tier):
    for n in list(range(2, 40)) + [64]:
        yield dict(kind="grid", n=n, a=-1.0, b=1.0, seed=n)
    for n in (2, 3, 7, 16, 130, 257, 300):
        for a, b in ((0.0, 1e-12), (-1e-11, 1e-11), (0.0, 1e8), (-1e6, 2e6), (10.0, 11.0), (-3, 4), (0, 1), (-5, -1), (0.0, 1e14), (-1e100, 1e100), (0.0, 1e-100)):
            if n < 100 or b == 1:
                yield dict(kind="grid", n=n, a=a, b=b, seed=n)
    for s in seeds(rng, 150 if tier == "quick" else 2500):
        g = np.random.default_rng(s)
        a = float(g.normal() * 10.0 ** g.integers(-1, 2))
        yield dict(kind="grid", n=int(g.integers(2, 30)), a=a, b=a + float(10.0 ** g.uniform(-1, 2)), seed=s)
        yield dict(kind="dx", n=int(g.integers(2, 14)), m=int(g.choice([0, 1, 2, 3, 4, 4, 6, 9, 12])), cols=int(g.integers(0, 4)), seed=s, sq=bool(g.integers(2)))
    for n in ("1", "0", "-1", "-2", "-3", "4.0", "'4'", "None", "2.5"):
        yield dict(kind="bad", n=n)
    yield dict(kind="badshape")
    yield dict(kind="default")
    for n in (1999, 4000):
        for a, b in ((-1.0, 1.0), (-40.0, 40.0), (0.0, 1.0)):
            yield dict(kind="nodes", n=n, a=a, b=b)


def run_C19(case):
    from rkstiff.grids import construct_x_cheb, construct_x_dx_cheb
    from rkstiff.derivatives import dx_cheb
    k = case["kind"]
    if k == "bad":
        n = eval(case["n"])
        e = ValueError if isinstance(n, int) else TypeError
        for f in (construct_x_cheb, construct_x_dx_cheb):
            m = raises(e, f, n)
            if m:
                return f"{f.__name__}({n!r}) {m}"
        n = eval(case["n"])
        if not isinstance(n, int) or n < 0:
            m = raises(e, dx_cheb, np.eye(4), np.ones(4), n)
            if m:
                return f"dx_cheb with n={n!r} {m}"
        return None
    if k == "badshape":
        for D, u in ((np.eye(4), np.ones(3)), (np.eye(4), np.ones(5)), (np.ones((4, 3)), np.ones(4)), (np.eye(4), np.ones((3, 4))),
                     (np.eye(4), np.ones((5, 2))), (np.eye(4), np.ones((4, 2, 2))), (np.eye(4), np.array(1.0)), (np.ones((3, 4)), np.ones(4))):
            for q in (1, 2):
                m = raises(ValueError, dx_cheb, D, u, q)
                if m:
                    return f"dx_cheb with D {D.shape}, u {u.shape} {m}"
        return None
    if k == "default":
        for x in (construct_x_dx_cheb(6)[0], construct_x_cheb(6)):
            m = close(x, -np.cos(np.pi * np.arange(7) / 6), tol=1e-14)
            if m:
                return f"default interval: x {m}"
        return None
    n = case["n"]
    if k == "nodes":
        a, b = case["a"], case["b"]
        x = construct_x_cheb(n, a, b)
        m = close(x, a + (b - a) * np.sin(np.pi * np.arange(n + 1) / (2 * n)) ** 2, tol=1e-13, scale=max(abs(a), abs(b)))
        return f"construct_x_cheb({n},{a!r},{b!r}): x {m}" if m else None
    g = np.random.default_rng(case["seed"])
    if k == "grid":
        a, b = case["a"], case["b"]
        for f in (construct_x_cheb, construct_x_dx_cheb):
            x = f(n, a, b)
            x = x if f is construct_x_cheb else x[0]
            j = np.arange(n + 1)
            m = close(x, a + (b - a) * (1 - np.cos(np.pi * j / n)) / 2, tol=1e-14, scale=max(abs(a), abs(b)))
            if m:
                return f"{f.__name__}({n},{a!r},{b!r}): x {m}"
            if not np.all(np.diff(x) > 0):
                return "grid is not ascending"
        x, D = construct_x_dx_cheb(n, a, b)
        if D.shape != (n + 1, n + 1):
            return f"matrix has shape {D.shape}"
        c = np.where((j == 0) | (j == n), 2.0, 1.0) * (-1.0) ** j
        with np.errstate(all="ignore"):
            E = (c[:, None] / c[None, :]) / (x[:, None] - x[None, :])
        np.fill_diagonal(E, 0)
        off = ~np.eye(n + 1, dtype=bool)
        # entries are sensitive to the rounding of the grid points
        m = rclose(D[off], E[off], tol=1e-9, floor=1e-12 * np.max(np.abs(E)) * max(1.0, max(abs(a), abs(b)) / (b - a)) if a and b else 0.0)
        if m:
            return f"construct_x_dx_cheb({n},{a!r},{b!r}): off-diagonal {m}"
        E = E - np.diag(E.sum(axis=1))
        m = close(D, E, tol=1e-9)
        if m:
            return f"construct_x_dx_cheb({n},{a!r},{b!r}): matrix {m}"
        m = close(D.sum(axis=1), np.zeros(n + 1), tol=1e-9, scale=np.max(np.abs(D)))
        if m:
            return "row sums: " + m
        if n <= 16:
            mid, half = (a + b) / 2, (b - a) / 2
            co = g.uniform(-1, 1, n + 1)
            T = np.polynomial.chebyshev.Chebyshev(co, domain=[a, b])
            m = close(D @ T(x), T.deriv()(x), tol=1e-9, scale=n * n / half * np.sum(np.abs(co)))
            if m:
                return f"matrix does not differentiate a polynomial of degree {n}: {m}"
        return None
    m_, cols = case["m"], case["cols"]
    D = g.uniform(-1, 1, (n, n))
    u = g.uniform(-1, 1, n) if cols == 0 else g.uniform(-1, 1, (n, n if case["sq"] else cols))
    if case["seed"] % 3 == 0:
        u = u + 1j * g.uniform(-1, 1, u.shape)
    Dc, uc = D.copy(), u.copy()
    r = dx_cheb(D, u, m_) if m_ != 1 or case["seed"] % 2 else dx_cheb(D, u)
    ex = u
    for _ in range(m_):
        ex = np.array([sum(D[i, t] * ex[t] for t in range(n)) for i in range(n)])
    if not np.array_equal(D, Dc) or not np.array_equal(u, uc):
        return "dx_cheb modified its input"
    m = close(r, ex, tol=1e-11, scale=max(1.0, float(n) ** m_))
    return f"dx_cheb(n={m_}, u {u.shape}): {m}" if m else None


# ------------------------------------------------------------------ C20
def gen_C20(rng, tier):
    for s in seeds(rng, 80 if tier == "quick" else 1200):
        g = np.random.default_rng(s)
        ops = []
        for _ in range(int(g.integers(0, 6))):
            if g.random() < 0.5:
                ops.append(["nr", str(g.choice(["4", "5", "8", "13", "32", "3", "0", "-1", "6.0", "'7'", "2.5", "None"]))])
            else:
                ops.append(["rmax", str(g.choice(["0.5", "1.0", "2", "7.3", "0", "-1.0", "nan", "100.0", "1e-9", "3e-9", "2.000001", "1e6", "1e6 + 1"]))])
        yield dict(seed=s, nr=int(g.integers(4, 24)), rmax=float(10.0 ** g.uniform(-1, 1)), ops=ops, tamper=bool(g.integers(2)))
    for nr in ("3", "0", "-2"):
        yield dict(seed=0, bad=["nr", nr])
    for r in ("0", "-1.0", "nan", "0.0"):
        yield dict(seed=0, bad=["rmax", r])
    yield dict(seed=1, nr=6, rmax=None, ops=[], tamper=False)


def check_hankel(H, nr, rmax, g):
    z = sp.jn_zeros(0, nr + 1)
    j, jN = z[:-1], z[-1]
    Y = 2 * sp.j0(np.outer(j, j) / jN) / (jN * sp.j1(j)[None, :] ** 2)
    f = g.uniform(-1, 1, nr)
    F2 = g.uniform(-1, 1, (nr, 3))
    fc = f.copy()
    if H.nr != nr or H.rmax != rmax:
        return f"(nr, rmax) is ({H.nr!r}, {H.rmax!r}), expected ({nr!r}, {rmax!r})"
    for what, a, b in (("r", H.r, rmax * j / jN), ("kr", H.kr, j / rmax), ("bessel_zeros", H.bessel_zeros(), j), ("hankel_matrix", H.hankel_matrix(), Y),
                       ("ht", H.ht(f), rmax**2 / jN * (Y @ f)), ("iht", H.iht(f), jN / rmax**2 * (Y @ f)), ("ht 2-D", H.ht(F2), rmax**2 / jN * (Y @ F2)),
                       ("iht 2-D", H.iht(F2), jN / rmax**2 * (Y @ F2))):
        m = close(a, b, tol=1e-11)
        if m:
            return f"{what} does not belong to nr={nr}, rmax={rmax!r}: {m}"
    if not np.array_equal(f, fc):
        return "ht/iht modified its input"
    return None


def run_C20(case):
    from rkstiff.transforms import HankelTransform
    from rkstiff.grids import construct_r_kr_hankel
    ev = lambda s: eval(s, {"nan": math.nan})
    if "bad" in case:
        w, v = case["bad"]
        v = ev(v)
        args = (v, 1.0) if w == "nr" else (8, v)
        return raises(ValueError, HankelTransform, *args) or raises(ValueError, construct_r_kr_hankel, *args)
    g = np.random.default_rng(case["seed"])
    nr, rmax = case["nr"], case["rmax"]
    if rmax is None:
        rmax = 1.0
        H = HankelTransform(nr)
    else:
        H = HankelTransform(nr, rmax)
    r, kr, bz, jN = construct_r_kr_hankel(nr, rmax)
    z = sp.jn_zeros(0, nr + 1)
    for a, b in ((r, rmax * z[:-1] / z[-1]), (kr, z[:-1] / rmax), (bz, z[:-1]), (jN, z[-1])):
        m = close(a, b, tol=1e-12)
        if m:
            return "construct_r_kr_hankel: " + m
    m = check_hankel(H, nr, rmax, g)
    if m:
        return "after construction: " + m
    hist = []
    for w, s in case["ops"]:
        v = ev(s)
        ok = (isinstance(v, int) and v >= 4) if w == "nr" else v > 0
        hist.append(f"{w}={s}")
        old = (H.r, H.r.copy())
        try:
            setattr(H, w, v)
            if not ok:
                return f"{hist}: accepted"
            if w == "nr":
                nr = v
            else:
                rmax = v
        except ValueError:
            if ok:
                return f"{hist}: refused"
        m = check_hankel(H, nr, rmax, g)
        if m:
            return f"after {hist}: {m}"
        if case["tamper"]:
            H.hankel_matrix()[:] = 7.0
            H.bessel_zeros()[:] = 7.0
            m = check_hankel(H, nr, rmax, g)
            if m:
                return f"after {hist} and modifying returned arrays: {m}"
    if case["tamper"]:
        H.hankel_matrix()[:] = 7.0
        H.bessel_zeros()[:] = 7.0
        m = check_hankel(H, nr, rmax, g)
        if m:
            return f"after modifying returned arrays: {m}"
    return None


# ------------------------------------------------------------------ C21
def gen_C21(rng, tier):
    for s in seeds(rng, 200 if tier == "quick" else 3000):
        g = np.random.default_rng(s)
        yield dict(kind=str(g.choice(["kdv", "burgers", "ac"])), seed=s, n=int(2 * g.integers(2, 40)), mu=float(g.choice([10.0 ** g.uniform(-3, 1), 10.0 ** g.uniform(-3, 1), 1e-12, -0.3, 0.0])),
                   a=float(g.normal()), L=float(10.0 ** g.uniform(-0.5, 1.5)), d=bool(g.integers(2)))


def run_C21(case):
    from rkstiff import models, grids
    g = np.random.default_rng(case["seed"])
    n, a, b = case["n"], case["a"], case["a"] + case["L"]
    if case["kind"] in ("kdv", "burgers"):
        kx = 2 * np.pi * np.arange(n // 2 + 1) / (b - a) * [1, 1, 1, 1e10, 1e-10][case["seed"] % 5]
        kc = kx.copy()
        if case["kind"] == "kdv":
            L, N = models.kdv_ops(kx)
            EL, c = 1j * kx**3, -6.0
        else:
            L, N = models.burgers_ops(kx, case["mu"])
            EL, c = -case["mu"] * kx**2, -1.0
        m = rclose(L, EL, tol=1e-13)
        if m:
            return f"{case['kind']}_ops linear operator {m}"
        kneg = np.fft.fftfreq(n, 1 / n) * 0.7          # negative wavenumbers too
        Ln = models.kdv_ops(kneg)[0] if case["kind"] == "kdv" else models.burgers_ops(kneg, case["mu"])[0]
        m = rclose(Ln, 1j * kneg**3 if case["kind"] == "kdv" else -case["mu"] * kneg**2, tol=1e-13)
        if m:
            return f"{case['kind']}_ops linear operator, two-sided grid: {m}"
        for rep in range(9):
            uf = np.fft.rfft(g.uniform(-1, 1, n))
            if rep == 4:
                uf = uf * 1e-10
            if rep == 5:
                uf = uf * 1e8
            if rep == 6:
                uf[1:] = 0
            if rep == 7:
                uf = uf * 1e-150
            if rep == 8:
                uf[::2] = 0
            if rep == 1:
                uf[n // 4:] = 0
            if rep == 2:
                uf[-1] = 0
            if rep == 3:
                uf[0] = uf[-1] = 0
            ufc = uf.copy()
            r1 = N(uf)
            u = np.fft.irfft(uf, n)
            ux = np.fft.irfft(1j * kx * uf, n)
            m = close(r1, c * np.fft.rfft(u * ux), tol=1e-11, scale=max(np.max(np.abs(u)) * np.max(kx) * np.max(np.abs(uf)), 1e-305))
            if m:
                return f"{case['kind']}_ops nonlinear function (n={n}) {m}"
            r1c = r1.copy()
            N(uf * 0.5 + 1)
            r2 = N(uf)
            if not np.array_equal(uf, ufc) or not np.array_equal(kx, kc):
                return f"{case['kind']}_ops modified an argument"
            if not np.array_equal(r1, r2) or not np.array_equal(r1, r1c):
                return f"{case['kind']}_ops: equal arguments, different results (or a returned array was overwritten)"
        if not np.array_equal(L, EL) and close(L, EL, tol=1e-13):
            return "linear operator changed by calls"
        # a second pair of operators on another grid does not disturb the first
        models.kdv_ops(kx * 2)[1](uf)
        if not np.array_equal(N(uf), r2):
            return "operators of two grids interfere"
        # pairing: on u(x) = cos-type single mode L u^ must be the documented linear term
        return None
    nn = max(3, n // 2)
    x, D = grids.construct_x_dx_cheb(nn, a, b) if case["d"] else (np.sort(g.uniform(a, b, nn + 1)), g.uniform(-1, 1, (nn + 1, nn + 1)))
    xc, Dc = x.copy(), D.copy()
    eps = case["mu"]
    L, N = models.allen_cahn_ops(x, D, eps) if eps < 3 else models.allen_cahn_ops(x, D)
    if eps >= 3:
        eps = 0.01
    D2 = D @ D
    EL = (eps * D2 + np.eye(nn + 1))[1:-1, 1:-1]
    m = rclose(L, EL, tol=1e-11, floor=1e-13 * (abs(eps) * np.abs(D) @ np.abs(D) + np.eye(nn + 1))[1:-1, 1:-1])
    if m:
        return f"allen_cahn_ops linear operator {m}"
    v = g.uniform(-1, 1, nn - 1)
    xi0 = x[1:-1].copy()
    for vv in (v, v + 0j, v + 0.3j, v * 1e-9, v * 1e5, -xi0, np.round(3 * v).astype(int)):
        vc = vv.copy()
        r = N(vv)
        xi = x[1:-1]
        m = close(r, xi - (vv + xi) ** 3, tol=1e-11)
        if m:
            return f"allen_cahn_ops nonlinear function {m}"
        rc = r.copy()
        N(vv * 0.2)
        if not np.array_equal(r, rc) or not np.array_equal(N(vv), r):
            return "allen_cahn_ops: equal arguments, different results (or a returned array was overwritten)"
        if not np.array_equal(vv, vc) or not np.array_equal(x, xc) or not np.array_equal(D, Dc):
            return "allen_cahn_ops modified an argument"
    return None


# ------------------------------------------------------------------ C22
def gen_C22(rng, tier):
    for s in seeds(rng, 200 if tier == "quick" else 3000):
        g = np.random.default_rng(s)
        yield dict(kind=str(g.choice(["single", "multi", "default"])), seed=s, m=int(g.integers(1, 5)), n=int(g.integers(1, 30)))
    for la, lb in ((1, 2), (2, 1), (0, 1), (3, 2)):
        yield dict(kind="bad", la=la, lb=lb)


def run_C22(case):
    from rkstiff import models
    if case["kind"] == "bad":
        return raises(ValueError, models.kdv_multi_soliton, np.linspace(0, 1, 5), [1.0] * case["la"], [0.0] * case["lb"])
    g = np.random.default_rng(case["seed"])
    x = np.sort(g.uniform(-20, 20, case["n"]))
    if case["seed"] % 4 == 1:
        x = x * float(g.choice([30, 300, 3e3, 3e5]))      # far from the solitons the profile is 0, not NaN
    xc = x.copy()

    def close(a, b, tol, peak=1e-4):          # far from every soliton the values underflow
        return globals()["close"](a, b, tol, max(np.max(np.abs(b), initial=0), peak))

    def sol(a, x0, t):
        return a * a / 2 / np.cosh(a * (x - x0 - a * a * t) / 2) ** 2
    if case["kind"] == "default":
        m = close(models.kdv_soliton(x), sol(0.5, 0.0, 0.0), tol=1e-12) or close(models.kdv_multi_soliton(x, [0.7], [0.1]), sol(.7, .1, 0.0), tol=1e-12)
    elif case["kind"] == "single":
        a, x0, t = float(g.uniform(-2, 2)), float(g.normal()), float(g.normal() * 3)
        m = close(models.kdv_soliton(x, a, x0, t), sol(a, x0, t), tol=1e-11)
        m = m or close(models.kdv_soliton(x, ampl=a, x0=x0, t=t), sol(a, x0, t), tol=1e-11)
    else:
        am, xs, t = g.uniform(-2, 2, case["m"]), g.normal(size=case["m"]) * 5, float(g.normal() * 3)
        if case["seed"] % 6 == 1:                     # equal solitons, equal amplitudes, equal positions
            am[-1] = am[0]
            xs[-1] = xs[0] if g.integers(2) else xs[-1]
        elif case["seed"] % 6 == 2:
            xs[-1] = xs[0]
        ex = sum(sol(a, x0, t) for a, x0 in zip(am, xs))
        if case["seed"] % 2:
            am, xs = list(am), tuple(xs)
        if case["seed"] % 5 == 0:
            am = [int(q) for q in g.integers(1, 3, case["m"])]
        if case["seed"] % 7 == 0:
            xs = [int(q) for q in g.integers(-5, 5, case["m"])]
        ex = sum(sol(a, x0, t) for a, x0 in zip(am, xs))
        m = close(models.kdv_multi_soliton(x, am, xs, t), ex, tol=1e-11)
        if np.any(np.array(am) != np.array(list(am))):
            return "input modified"
    if not np.array_equal(x, xc):
        return "x modified"
    return f"{case['kind']}: {m}" if m else None


# ------------------------------------------------------------------ C23
def gen_C23(rng, tier):
    for s in seeds(rng, 200 if tier == "quick" else 2500):
        g = np.random.default_rng(s)
        yield dict(kind=str(g.choice(["none", "d1", "ax-1", "ax0", "ax1", "ax0sq", "ax1sq"])), seed=s, n=int(g.integers(1, 20)), m=int(g.integers(1, 9)))
    for ax in (2, -2, 3, 7, -3):
        yield dict(kind="bad", ax=ax, seed=0, n=4, m=3)


def run_C23(case):
    from rkstiff.grids import mirror_grid
    g = np.random.default_rng(case["seed"])
    n, m_ = case["n"], case["m"]
    r = np.sort(g.uniform(0.01, 3, n))
    if case["seed"] % 5 == 1:
        r = r - r[0]
    elif case["seed"] % 5 == 2:
        r = g.normal(size=n)
    elif case["seed"] % 5 == 3:
        r = np.arange(n)
    rc = r.copy()
    k = case["kind"]
    if k == "bad":
        return raises(ValueError, mirror_grid, r, g.uniform(-1, 1, (n, n)), axis=case["ax"])
    er = np.concatenate([-r[::-1], r])
    if k == "none":
        out = mirror_grid(r)
        if out[1] is not None:
            return "values returned without u"
        x, m = out[0], None
    else:
        if k == "d1":
            u, ax = g.uniform(-1, 1, n), -1
            eu = np.concatenate([u[::-1], u])
        elif k == "ax-1":
            u, ax = g.uniform(-1, 1, n) + 1j, -1
            eu = np.concatenate([u[::-1], u])
        elif k in ("ax0", "ax0sq"):
            u, ax = g.uniform(-1, 1, (n, n if k[-1] == "q" else m_)), 0
            eu = np.concatenate([u[::-1, :], u], axis=0)
        else:
            u, ax = g.uniform(-1, 1, (n if k[-1] == "q" else m_, n)), 1
            eu = np.concatenate([u[:, ::-1], u], axis=1)
        if case["seed"] % 3 == 0:
            u = u + 1j * g.uniform(-1, 1, u.shape)
            eu = np.concatenate([u[::-1], u]) if u.ndim == 1 else np.concatenate([u[::-1, :], u], axis=0) if ax == 0 else np.concatenate([u[:, ::-1], u], axis=1)
        if case["seed"] % 11 == 1:
            u, eu = u * 0, eu * 0
        uc = u.copy()
        x, v = mirror_grid(r, u, axis=ax) if k != "d1" or case["seed"] % 2 else mirror_grid(r, u)
        m = close(v, eu, tol=0)
        if m:
            return f"{k}: values {m}"
        v[...] = 9
        if not np.array_equal(u, uc):
            return "input values modified (or aliased by the result)"
    m = close(x, er, tol=0)
    if m:
        return f"{k}: grid {m}"
    x[...] = 9
    if not np.array_equal(r, rc):
        return "input grid modified"
    return None


ORACLES = {"C17": (gen_C17, run_C17), "C18": (gen_C18, run_C18), "C19": (gen_C19, run_C19), "C20": (gen_C20, run_C20),
           "C21": (gen_C21, run_C21), "C22": (gen_C22, run_C22), "C23": (gen_C23, run_C23)}
