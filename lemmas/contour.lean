import Mathlib.RingTheory.RootsOfUnity.Complex
import Mathlib.Analysis.SpecificLimits.Normed

open Complex Finset

namespace Rk

/-- the contour nodes of the code: r exp(2 i pi (j + 1/2) / M) -/
noncomputable def znode (r : ℝ) (M j : ℕ) : ℂ := r * exp (2 * Real.pi * I * (j + 1 / 2) / M)

theorem znode_zpow (r : ℝ) {M : ℕ} (j : ℕ) (k : ℤ) :
    znode r M j ^ k = (r : ℂ) ^ k * exp (Real.pi * I * k / M) * (exp (2 * Real.pi * I / M) ^ k) ^ j := by
  rw [znode, mul_zpow, mul_assoc ((r : ℂ) ^ k), ← exp_int_mul, ← exp_int_mul, ← exp_nat_mul, ← exp_add]
  congr 2
  ring

theorem sum_znode_zpow (r : ℝ) {M : ℕ} (hM : 1 ≤ M) (k : ℤ) :
    ∑ j ∈ range M, znode r M j ^ k = if (M : ℤ) ∣ k then (M : ℂ) * ((-1) ^ (k / M) * (r : ℂ) ^ k) else 0 := by
  have hM0 : (M : ℂ) ≠ 0 := by exact_mod_cast (by omega : M ≠ 0)
  have hz := Complex.isPrimitiveRoot_exp M (by omega)
  simp only [znode_zpow, ← mul_sum]
  split_ifs with h
  · obtain ⟨q, rfl⟩ := h
    have h1 : exp (2 * Real.pi * I / M) ^ ((M : ℤ) * q) = 1 := by
      rw [zpow_mul, zpow_natCast, hz.pow_eq_one, one_zpow]
    have h2 : exp (Real.pi * I * (((M : ℤ) * q : ℤ) : ℂ) / M) = (-1) ^ q := by
      rw [← exp_pi_mul_I, ← exp_int_mul]
      congr 1
      push_cast
      field_simp
    rw [h1, h2, Int.mul_ediv_cancel_left q (by exact_mod_cast (by omega : M ≠ 0))]
    simp only [one_pow, sum_const, card_range, nsmul_eq_mul, mul_one]
    ring
  · have hne : exp (2 * Real.pi * I / M) ^ k ≠ 1 := fun h1 => h (by exact_mod_cast (hz.zpow_eq_one_iff_dvd k).mp h1)
    have h3 : (exp (2 * Real.pi * I / M) ^ k) ^ M = 1 := by
      rw [← zpow_natCast, ← zpow_mul, mul_comm k, zpow_mul, zpow_natCast, hz.pow_eq_one, one_zpow]
    rw [geom_sum_eq hne M, h3, sub_self, zero_div, mul_zero]

/-- Laurent form. If f(c + z) = sum over integers k of a_k z^k on the circle |z| = r, the mean of f over the M nodes is
the sum over m of (-1)^m a_(mM) r^(mM): the constant term a_0 plus terms whose index is a nonzero multiple of M. -/
theorem contour_mean (a : ℤ → ℂ) (f : ℂ → ℂ) (c : ℂ) (r : ℝ) {M : ℕ} (hM : 1 ≤ M)
    (hf : ∀ z : ℂ, ‖z‖ = |r| → HasSum (fun k : ℤ => a k * z ^ k) (f (c + z))) :
    HasSum (fun m : ℤ => a (M * m) * ((-1) ^ m * (r : ℂ) ^ (M * m : ℤ))) ((∑ j ∈ range M, f (c + znode r M j)) / M) := by
  have hM0 : (M : ℂ) ≠ 0 := by exact_mod_cast (by omega : M ≠ 0)
  have hMz : (M : ℤ) ≠ 0 := by exact_mod_cast (by omega : M ≠ 0)
  have hn : ∀ j, ‖znode r M j‖ = |r| := by
    intro j
    rw [znode, norm_mul, Complex.norm_real, Real.norm_eq_abs,
      show 2 * (Real.pi : ℂ) * I * (j + 1 / 2) / M = ((2 * Real.pi * (j + 1 / 2) / M : ℝ) : ℂ) * I by push_cast; ring,
      norm_exp_ofReal_mul_I, mul_one]
  have h1 : HasSum (fun k : ℤ => ∑ j ∈ range M, a k * znode r M j ^ k) (∑ j ∈ range M, f (c + znode r M j)) :=
    hasSum_sum fun j _ => hf _ (hn j)
  have h2 := h1.div_const (M : ℂ)
  have he : ∀ k : ℤ, (∑ j ∈ range M, a k * znode r M j ^ k) / M =
      if (M : ℤ) ∣ k then a k * ((-1) ^ (k / M) * (r : ℂ) ^ k) else 0 := by
    intro k
    rw [← mul_sum, sum_znode_zpow r hM]
    split_ifs
    · field_simp
    · simp
  simp only [he] at h2
  have hi : Function.Injective (fun m : ℤ => (M : ℤ) * m) := fun x y h => mul_left_cancel₀ hMz h
  rw [← hi.hasSum_iff] at h2
  · have e : ((fun i => if (M : ℤ) ∣ i then a i * ((-1) ^ (i / M) * (r : ℂ) ^ i) else 0) ∘ fun m => (M : ℤ) * m) =
        fun m : ℤ => a (M * m) * ((-1) ^ m * (r : ℂ) ^ (M * m : ℤ)) := by
      funext m
      simp [Int.mul_ediv_cancel_left m hMz]
    rw [e] at h2
    exact h2
  · intro k hk
    rw [if_neg]
    rintro ⟨q, rfl⟩
    exact hk ⟨q, rfl⟩

/-- Error bound: if |a_k| r^k <= C q^|k| with q < 1 then the mean differs from a_0 by at most 2 C q^M / (1 - q^M). -/
theorem contour_error (a : ℤ → ℂ) (f : ℂ → ℂ) (c : ℂ) (r : ℝ) {M : ℕ} (hM : 1 ≤ M)
    (hf : ∀ z : ℂ, ‖z‖ = |r| → HasSum (fun k : ℤ => a k * z ^ k) (f (c + z)))
    {C q : ℝ} (hq0 : 0 ≤ q) (hq : q < 1) (hb : ∀ k : ℤ, ‖a k‖ * |r| ^ k ≤ C * q ^ k.natAbs) :
    ‖(∑ j ∈ range M, f (c + znode r M j)) / M - a 0‖ ≤ 2 * C * q ^ M / (1 - q ^ M) := by
  have h := contour_mean a f c r hM hf
  have hqM : q ^ M < 1 := pow_lt_one₀ hq0 hq (by omega)
  have hqM0 : 0 ≤ q ^ M := pow_nonneg hq0 M
  set T : ℤ → ℂ := fun m : ℤ => a (M * m) * ((-1) ^ m * (r : ℂ) ^ (M * m : ℤ)) with hT
  have hTn : ∀ m : ℤ, ‖T m‖ ≤ C * (q ^ M) ^ m.natAbs := by
    intro m
    have := hb (M * m)
    rw [Int.natAbs_mul, Int.natAbs_natCast, pow_mul] at this
    simpa [hT, norm_mul, norm_zpow] using this
  have h0 : T 0 = a 0 := by simp [hT]
  set Q := q ^ M with hQ
  have hg1 : HasSum (fun n : ℕ => C * Q ^ n) (C * (1 - Q)⁻¹) := (hasSum_geometric_of_lt_one hqM0 hqM).mul_left C
  have hg2 : HasSum (fun n : ℕ => C * Q ^ (n + 1)) (C * (Q * (1 - Q)⁻¹)) := by
    simpa [pow_succ'] using ((hasSum_geometric_of_lt_one hqM0 hqM).mul_left Q).mul_left C
  have hg : HasSum (fun m : ℤ => C * Q ^ m.natAbs) (C * (1 - Q)⁻¹ + C * (Q * (1 - Q)⁻¹)) := by
    refine HasSum.of_nat_of_neg_add_one ?_ ?_
    · simpa using hg1
    · convert hg2 using 2 with n
      rw [show (-((n : ℤ) + 1)).natAbs = n + 1 by omega]
  have hg' := hg.sub (hasSum_ite_eq (0 : ℤ) C)
  have hs := h.sub (hasSum_ite_eq (0 : ℤ) (T 0))
  have hle : ∀ m : ℤ, ‖T m - (if m = 0 then T 0 else 0)‖ ≤ C * Q ^ m.natAbs - (if m = 0 then C else 0) := by
    intro m
    split_ifs with hm
    · subst hm; simp
    · simpa using hTn m
  have hfin := tsum_of_norm_bounded hg' hle
  rw [hs.tsum_eq, h0] at hfin
  refine hfin.trans (le_of_eq ?_)
  have : (1 - Q) ≠ 0 := by linarith [hqM]
  field_simp
  ring

end Rk

#print axioms Rk.contour_mean
#print axioms Rk.contour_error
