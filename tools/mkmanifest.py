"""Regenerates MANIFEST.json (levels and notes per property)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DONE = set(os.environ.get("DONE", "C01 C02 C03 C04 C05 C09 C10 C11 C12 C13 C06 C07 C08 C15 C14 C24 C16 C17 C18 C19 C20 C21 C22 C23").split())
BOUND = "concrete stand-in (labelled bounded) replays the same oracle on the real code"
NOTE = {
 "evolve": "every path of the extracted evolve loops under inductive loop contracts (floating-point rounding bounded by interval axioms); trusted: extraction and the semantics in rkv/, z3; step() enters only through its contract (C04/C05)",
 "stepctl": "extracted step/_reject_step_size/_accept_step_size under contracts with extended-real arithmetic; trusted: extraction, rkv semantics of numpy/logging, z3; rounding in the factor s is treated as mathematical",
 "config": "extracted constructors and setters under contracts over extended reals; trusted: extraction and rkv semantics, z3",
 "schemes": "extracted stage/coefficient code executed over exact normal forms (Q(i) Laurent/exponential ring), obligations are identities in that ring; trusted: rkv semantics of numpy/scipy (inverse, expm, contour mean = residue sum), generic position",
 "history": "extracted solver state machine executed from a junk/template state closed under attempts; exact normal forms decide the equalities; trusted: extraction and rkv semantics",
 "spectral": "extracted grid, transform, derivative and model code executed over arrays of symbolic length; equalities are decided by exact normal forms (trigonometric/exponential ring, linear operators as uninterpreted maps of canonical operands), side conditions by z3; trusted: extraction, rkv semantics of numpy/scipy.fft/scipy.special, rounding treated as mathematical",
 "logs": "extracted logging code and solvers executed with a faithful stand-in for logging; trusted: rkv semantics of logging",
 "construct": "extracted constructors over symbolic shapes; trusted: extraction and rkv semantics",
}
AREA = {}
for a, ids in {"evolve": "C01 C02 C03", "stepctl": "C04 C05", "config": "C14", "schemes": "C09 C10 C11 C12 C13 C06 C07 C08 C15", "history": "C06 C07 C08 C15",
               "spectral": "C17 C18 C19 C20 C21 C22 C23", "logs": "C16", "construct": "C24"}.items():
    for i in ids.split():
        AREA[i] = a
checks = []
for i in sorted(AREA):
    done = i in DONE
    checks.append({
        "property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i} thorough",
        "technique": "contract-based deductive verification of mechanically extracted real code"
                     + ("" if done else " (bounded concrete stand-in for what is out of reach)"),
        "level": "proof" if done else "other",
        "level_note": NOTE[AREA[i]] + "; what the verifier cannot reach is checked by a bounded " + BOUND[:-0] if not done
        else NOTE[AREA[i]] + "; in addition a " + BOUND,
    })
na = [
 {"property": "C25", "reason": "the statement is an asymptotic approximation bound (spectral convergence of a discrete Hankel transform for smooth decaying f); deciding it needs Bessel/Hankel analysis no contract over the code's operations expresses; the exact discrete relations are verified as C20"},
 {"property": "C26", "reason": "global-error proportionality for arbitrary well-posed problems is an analytic (Gronwall-type) statement about the unknown exact solution, not a contract on the code; its code-level ingredients are verified as C01, C04, C05, C09 and C10"},
]
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3, sympy'", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the verifier re-extracts /repo/rkstiff on every run. See DESIGN.md."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
