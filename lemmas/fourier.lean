import Mathlib.RingTheory.RootsOfUnity.Complex
import Mathlib.Analysis.Calculus.IteratedDeriv.Defs
import Mathlib.Analysis.SpecialFunctions.ExpDeriv
import Mathlib.Analysis.SpecialFunctions.Complex.Circle

open Complex Finset

namespace Rk

/-- numpy.fft.fft and ifft -/
noncomputable def dft (N : ℕ) (u : ℕ → ℂ) (s : ℕ) : ℂ := ∑ j ∈ range N, u j * exp (-(2 * Real.pi * I * (j * s) / N))
noncomputable def idft (N : ℕ) (F : ℕ → ℂ) (j : ℕ) : ℂ := (∑ s ∈ range N, F s * exp (2 * Real.pi * I * (j * s) / N)) / N

/-- a trigonometric polynomial with coefficients c and integer frequencies m on an interval of length L that starts at a -/
noncomputable def tp (N : ℕ) (a L : ℝ) (c : ℕ → ℂ) (m : ℕ → ℤ) (x : ℝ) : ℂ :=
  ∑ s ∈ range N, c s * exp (I * (2 * Real.pi * m s / L) * (x - a))

theorem iteratedDeriv_tp (N : ℕ) (a L : ℝ) (m : ℕ → ℤ) (n : ℕ) : ∀ c : ℕ → ℂ,
    iteratedDeriv n (tp N a L c m) = tp N a L (fun s => (I * (2 * Real.pi * m s / L)) ^ n * c s) m := by
  induction n with
  | zero => intro c; simp
  | succ n ih =>
    intro c
    rw [iteratedDeriv_succ, ih]
    funext x
    have h : ∀ s ∈ range N, HasDerivAt
        (fun x : ℝ => (I * (2 * Real.pi * m s / L)) ^ n * c s * exp (I * (2 * Real.pi * m s / L) * ((x : ℂ) - a)))
        ((I * (2 * Real.pi * m s / L)) ^ (n + 1) * c s * exp (I * (2 * Real.pi * m s / L) * ((x : ℂ) - a))) x := by
      intro s _
      have h1 : HasDerivAt (fun x : ℝ => I * (2 * Real.pi * m s / L) * ((x : ℂ) - a)) (I * (2 * Real.pi * m s / L)) x := by
        simpa using ((Complex.ofRealCLM.hasDerivAt (x := x)).sub_const (a : ℂ)).const_mul (I * (2 * Real.pi * m s / L))
      have h2 := h1.cexp.const_mul ((I * (2 * Real.pi * m s / L)) ^ n * c s)
      rw [show (I * (2 * Real.pi * m s / L)) ^ (n + 1) * c s * exp (I * (2 * Real.pi * m s / L) * ((x : ℂ) - a)) =
        (I * (2 * Real.pi * m s / L)) ^ n * c s * (exp (I * (2 * Real.pi * m s / L) * ((x : ℂ) - a)) * (I * (2 * Real.pi * m s / L))) by ring]
      exact h2
    exact (HasDerivAt.fun_sum h).deriv

/-- on the grid a mode looks like a column of the transform -/
theorem mode_on_grid {N : ℕ} (hN : 1 ≤ N) {a L : ℝ} (hL : L ≠ 0) (m : ℤ) (s j : ℕ) (hm : (N : ℤ) ∣ m - s) :
    exp (I * (2 * Real.pi * m / L) * (((a + j * (L / N) : ℝ) : ℂ) - a)) = exp (2 * Real.pi * I * (j * s) / N) := by
  obtain ⟨q, hq⟩ := hm
  have hN0 : (N : ℂ) ≠ 0 := by exact_mod_cast (by omega : N ≠ 0)
  have hL0 : (L : ℂ) ≠ 0 := by exact_mod_cast hL
  rw [exp_eq_exp_iff_exists_int]
  refine ⟨q * j, ?_⟩
  have hm' : (m : ℂ) = s + N * q := by
    have : m = s + N * q := by linarith
    rw [this]; push_cast; ring
  rw [hm']
  push_cast
  field_simp
  ring

theorem dft_column {N : ℕ} (hN : 1 ≤ N) {s t : ℕ} (hs : s < N) (ht : t < N) :
    ∑ j ∈ range N, exp (2 * Real.pi * I * (j * t) / N) * exp (-(2 * Real.pi * I * (j * s) / N)) = if s = t then (N : ℂ) else 0 := by
  have hN0 : (N : ℂ) ≠ 0 := by exact_mod_cast (by omega : N ≠ 0)
  have hz := Complex.isPrimitiveRoot_exp N (by omega)
  have e : ∀ j : ℕ, exp (2 * Real.pi * I * (j * t) / N) * exp (-(2 * Real.pi * I * (j * s) / N)) =
      (exp (2 * Real.pi * I / N) ^ ((t : ℤ) - s)) ^ j := by
    intro j
    rw [← exp_int_mul, ← exp_nat_mul, ← exp_add]
    congr 1
    push_cast
    ring
  simp only [e]
  split_ifs with h
  · subst h; simp
  · have hne : exp (2 * Real.pi * I / N) ^ ((t : ℤ) - s) ≠ 1 := by
      intro h1
      have hd := (hz.zpow_eq_one_iff_dvd _).mp h1
      have := Int.eq_zero_of_abs_lt_dvd hd (by rw [abs_lt]; constructor <;> omega)
      omega
    have h3 : (exp (2 * Real.pi * I / N) ^ ((t : ℤ) - s)) ^ N = 1 := by
      rw [← zpow_natCast, ← zpow_mul, mul_comm ((t : ℤ) - s), zpow_mul, zpow_natCast, hz.pow_eq_one, one_zpow]
    rw [geom_sum_eq hne N, h3, sub_self, zero_div]

/-- Transform of the samples of a trigonometric polynomial whose frequencies are those of the transform. -/
theorem dft_samples {N : ℕ} (hN : 1 ≤ N) {a L : ℝ} (hL : L ≠ 0) (c : ℕ → ℂ) (m : ℕ → ℤ) (hm : ∀ s < N, (N : ℤ) ∣ m s - s)
    {s : ℕ} (hs : s < N) : dft N (fun j => tp N a L c m (a + j * (L / N))) s = N * c s := by
  unfold dft tp
  have : ∀ j : ℕ, (∑ t ∈ range N, c t * exp (I * (2 * Real.pi * m t / L) * (((a + j * (L / N) : ℝ) : ℂ) - a))) *
      exp (-(2 * Real.pi * I * (j * s) / N)) =
      ∑ t ∈ range N, c t * (exp (2 * Real.pi * I * (j * t) / N) * exp (-(2 * Real.pi * I * (j * s) / N))) := by
    intro j
    rw [sum_mul]
    refine sum_congr rfl fun t ht => ?_
    rw [mode_on_grid hN hL (m t) t j (hm t (mem_range.mp ht)), mul_assoc]
  simp only [this]
  rw [sum_comm]
  simp only [← mul_sum]
  rw [sum_congr rfl (fun t ht => by rw [dft_column hN hs (mem_range.mp ht)])]
  simp [mem_range.mpr hs, mul_comm]

/-- Multiplying coefficient s by (i k_s)^n, k_s = 2 pi m_s / L, and transforming back gives the n-th derivative at the grid points. -/
theorem spectral_derivative {N : ℕ} (hN : 1 ≤ N) {a L : ℝ} (hL : L ≠ 0) (c : ℕ → ℂ) (m : ℕ → ℤ) (hm : ∀ s < N, (N : ℤ) ∣ m s - s)
    (n j : ℕ) :
    idft N (fun s => (I * (2 * Real.pi * m s / L)) ^ n * dft N (fun j => tp N a L c m (a + j * (L / N))) s) j =
      iteratedDeriv n (tp N a L c m) (a + j * (L / N)) := by
  have hN0 : (N : ℂ) ≠ 0 := by exact_mod_cast (by omega : N ≠ 0)
  rw [iteratedDeriv_tp, idft, tp, div_eq_mul_inv, sum_mul]
  refine sum_congr rfl fun s hs => ?_
  have hs' := mem_range.mp hs
  rw [dft_samples hN hL c m hm hs', mode_on_grid hN hL (m s) s j (hm s hs')]
  field_simp

end Rk

#print axioms Rk.spectral_derivative
