"""Lemmas about contracts, checked by Lean 4 + Mathlib on every run (lemmas/*.lean).

A lemma's hypotheses are obligations discharged on the code; its conclusion is the property's wording."""
import os
import re
import shutil
import subprocess
import time

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lemmas")
ALLOWED = {"propext", "Classical.choice", "Quot.sound"}
BACKEND = "Lean 4 + Mathlib (lemma)"
GUESS = "/app/lean4-4.33.0/build/release/stage1/bin/lean"
MATH = "/app/mathlib4-4.33.0/.lake"


def lean():
    return shutil.which("lean") or (GUESS if os.path.exists(GUESS) else None)


class Lemma:
    """start the proof checker now, collect with done()"""

    def __init__(self, name, file, theorems, says):
        self.name, self.file, self.theorems, self.says = name, os.path.join(DIR, file), theorems, says
        self.t = time.time()
        self.p = None
        exe = lean()
        if exe is None:
            return
        e = dict(os.environ)
        if not e.get("LEAN_PATH") and os.path.isdir(MATH):
            pk = os.path.join(MATH, "packages")
            e["LEAN_PATH"] = ":".join([os.path.join(MATH, "build/lib"), os.path.join(MATH, "build/lib/lean")]
                                      + [os.path.join(pk, p, ".lake/build/lib/lean") for p in (os.listdir(pk) if os.path.isdir(pk) else [])])
        try:
            self.p = subprocess.Popen([exe, self.file], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
        except OSError:
            self.p = None

    def done(self, rep, limit=150):
        out, why = "", "Lean is not available here"
        if self.p is not None:
            try:
                out, _ = self.p.communicate(timeout=limit)
                why = "Lean rejected it: " + out[-300:]
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.communicate()
                self.p, why = None, "Lean did not finish"
        if self.p is not None and self.p.returncode == 0 and ": error" not in out:
            got = {}
            for m in re.finditer(r"'([\w.]+)' depends on axioms: \[([^\]]*)\]", out):
                got[m.group(1)] = {x.strip() for x in m.group(2).split(",")}
            if all(t in got and got[t] <= ALLOWED for t in self.theorems):
                for t in self.theorems:
                    rep.add(f"lemma {t}: {self.says}", "proved", "lemmas/" + os.path.basename(self.file), BACKEND, (time.time() - self.t) / len(self.theorems))
                return True
        rep.assume(f"lemma not checked in this run ({why}): {self.says}")
        return False


def chebyshev():
    return Lemma("chebyshev", "chebyshev.lean", ["Rk.differentiates", "Rk.differentiates_power", "Rk.pt_lt", "Rk.pt_ends"],
                 "the grid of the contract is ascending from a to b, and a matrix with the proved entries and zero row sums differentiates "
                 "polynomials of degree <= n exactly, its k-th power k times")


def contour():
    return Lemma("contour", "contour.lean", ["Rk.contour_mean", "Rk.contour_error"],
                 "the mean over the M contour nodes is the constant Laurent coefficient (the residue sum) up to the coefficients at nonzero "
                 "multiples of M, at most 2 C q^M / (1 - q^M)")


def fourier():
    return Lemma("fourier", "fourier.lean", ["Rk.spectral_derivative"],
                 "multiplying coefficient s of the transform by (i k_s)^n and transforming back gives the n-th derivative of every "
                 "trigonometric polynomial with the transform's frequencies, at the grid points")
