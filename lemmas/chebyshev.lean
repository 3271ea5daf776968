import Mathlib.LinearAlgebra.Lagrange
import Mathlib.Analysis.SpecialFunctions.Trigonometric.Chebyshev.Extremal

open Polynomial Finset

namespace Rk

section bary
variable {F : Type*} [Field F] {ι : Type*} [DecidableEq ι]

theorem basis_deriv (s : Finset ι) (v : ι → F) (hv : Set.InjOn v s) {i j : ι} (hi : i ∈ s) (hj : j ∈ s) (hij : i ≠ j) :
    eval (v i) (derivative (Lagrange.basis s v j)) =
      Lagrange.nodalWeight s v j / (Lagrange.nodalWeight s v i * (v i - v j)) := by
  have hne : v i - v j ≠ 0 := sub_ne_zero_of_ne (fun h => hij (hv hi hj h))
  have hi' : i ∈ s.erase j := mem_erase.mpr ⟨hij, hi⟩
  have hj' : j ∈ s.erase i := mem_erase.mpr ⟨hij.symm, hj⟩
  rw [Lagrange.basis_eq_prod_sub_inv_mul_nodal_div hj, ← Lagrange.nodal_erase_eq_nodal_div hj,
    derivative_C_mul, eval_mul, eval_C, Lagrange.eval_nodal_derivative_eval_node_eq hi',
    Lagrange.nodalWeight_eq_eval_nodal_erase_inv (i := i), Lagrange.nodal_eq_mul_nodal_erase hj', eval_mul, erase_right_comm]
  have hz : eval (v i) (Lagrange.nodal ((s.erase i).erase j) v) ≠ 0 := by
    rw [Lagrange.eval_nodal, prod_ne_zero_iff]
    intro k hk
    simp only [mem_erase] at hk
    exact sub_ne_zero_of_ne (fun h => hk.2.1 (hv hi hk.2.2 h).symm)
  simp only [eval_sub, eval_X, eval_C]
  field_simp

theorem bary (s : Finset ι) (v : ι → F) (hv : Set.InjOn v s) {p : F[X]} (hp : p.degree < #s) {i : ι} (hi : i ∈ s) :
    eval (v i) (derivative p) =
      ∑ j ∈ s.erase i, Lagrange.nodalWeight s v j / (Lagrange.nodalWeight s v i * (v i - v j)) * (eval (v j) p - eval (v i) p) := by
  have hs : s.Nonempty := ⟨i, hi⟩
  have key : ∀ q : F[X], q.degree < #s → eval (v i) (derivative q) =
      ∑ j ∈ s, eval (v j) q * eval (v i) (derivative (Lagrange.basis s v j)) := by
    intro q hq
    conv_lhs => rw [Lagrange.eq_interpolate hv hq]
    simp [Lagrange.interpolate_apply, eval_finsetSum]
  have h1 := key 1 (by
    rw [degree_one]; exact_mod_cast card_pos.mpr hs)
  simp only [derivative_one, eval_zero, eval_one, one_mul] at h1
  rw [key p hp]
  have : ∑ j ∈ s, eval (v j) p * eval (v i) (derivative (Lagrange.basis s v j)) =
      ∑ j ∈ s, (eval (v j) p - eval (v i) p) * eval (v i) (derivative (Lagrange.basis s v j)) := by
    simp only [sub_mul, sum_sub_distrib, ← mul_sum, ← h1, mul_zero, sub_zero]
  rw [this, ← add_sum_erase s _ hi]
  simp only [sub_self, zero_mul, zero_add]
  refine sum_congr rfl fun j hj => ?_
  rw [basis_deriv s v hv hi (mem_of_mem_erase hj) (ne_of_mem_erase hj).symm, mul_comm]
end bary


open Polynomial.Chebyshev Real

noncomputable def cc (n j : ℕ) : ℝ := if j = 0 ∨ j = n then 2 else 1

theorem deriv_T_node {n i : ℕ} (h0 : 0 < i) (hn : i < n) : (derivative (T ℝ n)).eval (node n i) = 0 := by
  have hn0 : (n : ℝ) ≠ 0 := by exact_mod_cast (by omega : n ≠ 0)
  have hs : 0 < sin ((i : ℝ) * π / n) := by
    apply sin_pos_of_pos_of_lt_pi
    · have : (0 : ℝ) < i := by exact_mod_cast h0
      have : (0 : ℝ) < n := by exact_mod_cast (by omega : 0 < n)
      positivity
    · rw [div_lt_iff₀ (by exact_mod_cast (by omega : 0 < n)), mul_comm]
      exact mul_lt_mul_of_pos_left (by exact_mod_cast hn) pi_pos
  have h := U_real_cos ((i : ℝ) * π / n) ((n : ℤ) - 1)
  have e : (((n : ℤ) - 1 : ℤ) + 1 : ℝ) * ((i : ℝ) * π / n) = i * π := by
    push_cast; field_simp; ring
  rw [e, sin_nat_mul_pi] at h
  rw [T_derivative_eq_U, eval_mul, node]
  rcases mul_eq_zero.mp h with h | h
  · rw [h, mul_zero]
  · exact absurd h hs.ne'

theorem ode {n : ℕ} (x : ℝ) : (1 - x ^ 2) * (derivative (derivative (T ℝ n))).eval x =
    x * (derivative (T ℝ n)).eval x - (n : ℝ) ^ 2 * (T ℝ n).eval x := by
  have := congrArg (eval x) (one_sub_X_sq_mul_derivative_derivative_T_eq_poly_in_T (R := ℝ) n)
  simpa using this

noncomputable def Q (n : ℕ) : ℝ[X] := (X ^ 2 - 1) * derivative (T ℝ n)

theorem node_sq {n i : ℕ} (hi : i = 0 ∨ i = n) (hn : 1 ≤ n) : node n i ^ 2 = 1 := by
  rcases hi with rfl | rfl
  · simp [node_eq_one]
  · simp [node_eq_neg_one (by omega : i ≠ 0)]

theorem Q_node {n i : ℕ} (hn : 1 ≤ n) (hi : i ≤ n) : (Q n).eval (node n i) = 0 := by
  by_cases h : i = 0 ∨ i = n
  · simp [Q, node_sq h hn]
  · simp [Q, deriv_T_node (by omega : 0 < i) (by omega : i < n)]

theorem Q_deriv_node {n i : ℕ} (hn : 1 ≤ n) (hi : i ≤ n) :
    (derivative (Q n)).eval (node n i) = (n : ℝ) ^ 2 * (cc n i * (-1) ^ i) := by
  have hT := eval_T_real_node (n := n) (i := i) (by simpa using hi)
  have ho := ode (n := n) (node n i)
  rw [hT] at ho
  have e : (derivative (Q n)).eval (node n i) = 2 * node n i * (derivative (T ℝ n)).eval (node n i)
      - (1 - node n i ^ 2) * (derivative (derivative (T ℝ n))).eval (node n i) := by
    simp [Q, derivative_mul]; ring
  rw [e, ho]
  by_cases h : i = 0 ∨ i = n
  · rw [node_sq h hn] at ho
    simp only [cc, h, if_true]
    linear_combination -ho
  · rw [deriv_T_node (by omega : 0 < i) (by omega : i < n)]
    simp only [cc, h, if_false]
    ring

theorem node_inj (n : ℕ) : Set.InjOn (node n) (range (n + 1) : Finset ℕ) := (strictAntiOn_node n).injOn

theorem Q_natDegree {n : ℕ} (hn : 1 ≤ n) : (Q n).natDegree = n + 1 := by
  have h1 : (X ^ 2 - 1 : ℝ[X]).natDegree = 2 := by
    have : (X ^ 2 - 1 : ℝ[X]) = X ^ 2 - C 1 := by simp
    rw [this, natDegree_X_pow_sub_C]
  have h2 : (derivative (T ℝ n)).natDegree = n - 1 := by
    rw [natDegree_derivative, natDegree_T]; simp
  have n1 : (X ^ 2 - 1 : ℝ[X]) ≠ 0 := fun h => by rw [h] at h1; simp at h1
  have n2 : derivative (T ℝ n) ≠ 0 := by
    intro h
    have := derivative_eq_zero.mp h
    rw [natDegree_T] at this; simp at this; omega
  rw [Q, natDegree_mul n1 n2, h1, h2]; omega

theorem Q_eq {n : ℕ} (hn : 1 ≤ n) : Q n = C (Q n).leadingCoeff * Lagrange.nodal (range (n + 1)) (node n) := by
  have hQ0 : Q n ≠ 0 := fun h => by have := Q_natDegree hn; rw [h] at this; simp at this
  have hm := Lagrange.nodal_monic (s := range (n + 1)) (v := node n)
  have hd : (Lagrange.nodal (range (n + 1)) (node n)).degree = ((n + 1 : ℕ) : WithBot ℕ) := by
    rw [Lagrange.degree_nodal]; simp
  have hdQ : (Q n).degree = ((n + 1 : ℕ) : WithBot ℕ) := by rw [degree_eq_natDegree hQ0, Q_natDegree hn]
  rw [← sub_eq_zero]
  apply eq_zero_of_degree_lt_of_eval_index_eq_zero (s := range (n + 1)) (v := node n) (node_inj n)
  · have hl : (Q n).leadingCoeff ≠ 0 := leadingCoeff_ne_zero.mpr hQ0
    have : (Q n - C (Q n).leadingCoeff * Lagrange.nodal (range (n + 1)) (node n)).degree < (Q n).degree := by
      apply degree_sub_lt_left
      · rw [degree_C_mul hl, hd, hdQ]
      · exact hQ0
      · simp [hm.leadingCoeff]
    rw [hdQ] at this
    simpa using this
  · intro i hi
    have : i ≤ n := by simpa [Nat.lt_succ_iff] using hi
    simp [Q_node hn this, Lagrange.eval_nodal_at_node hi]

theorem weight {n i : ℕ} (hn : 1 ≤ n) (hi : i ≤ n) :
    Lagrange.nodalWeight (range (n + 1)) (node n) i = (Q n).leadingCoeff / ((n : ℝ) ^ 2 * (cc n i * (-1) ^ i)) := by
  have him : i ∈ range (n + 1) := by simpa [Nat.lt_succ_iff] using hi
  rw [Lagrange.nodalWeight_eq_eval_derivative_nodal him, ← Q_deriv_node hn hi]
  have hQ0 : Q n ≠ 0 := fun h => by have := Q_natDegree hn; rw [h] at this; simp at this
  have hl : (Q n).leadingCoeff ≠ 0 := leadingCoeff_ne_zero.mpr hQ0
  conv_rhs => rw [Q_eq hn]
  simp only [derivative_C_mul, eval_mul, eval_C, leadingCoeff_mul, leadingCoeff_C, (Lagrange.nodal_monic).leadingCoeff, mul_one]
  rw [div_mul_eq_div_div, div_self hl, one_div]

theorem weight_affine (s : Finset ℕ) (v : ℕ → ℝ) (A B : ℝ) {i : ℕ} (hi : i ∈ s) :
    Lagrange.nodalWeight s (fun j => A + B * v j) i = (B ^ (#s - 1))⁻¹ * Lagrange.nodalWeight s v i := by
  unfold Lagrange.nodalWeight
  rw [← card_erase_of_mem hi, ← inv_pow, ← prod_const, ← prod_mul_distrib]
  refine prod_congr rfl fun j _ => ?_
  rw [show A + B * v i - (A + B * v j) = B * (v i - v j) by ring, mul_inv]

/-- the points of the contract of construct_x_dx_cheb -/
noncomputable def pt (a b : ℝ) (n j : ℕ) : ℝ := a + (b - a) * (1 - cos (π * j / n)) / 2

theorem pt_eq (a b : ℝ) (n j : ℕ) : pt a b n j = (a + b) / 2 + (-(b - a) / 2) * node n j := by
  simp only [pt, node, mul_comm π]; ring

/-- the points are ascending, with end points a and b -/
theorem pt_ends {a b : ℝ} {n : ℕ} (hn : 1 ≤ n) : pt a b n 0 = a ∧ pt a b n n = b := by
  rw [pt_eq, pt_eq, node_eq_one, node_eq_neg_one (by omega)]
  constructor <;> ring

theorem pt_lt {a b : ℝ} (hab : a < b) {n i j : ℕ} (hj : j ≤ n) (hij : i < j) : pt a b n i < pt a b n j := by
  have := node_lt hj hij
  rw [pt_eq, pt_eq]
  nlinarith

/-- A matrix with entries c_i / (c_j (x_i - x_j)) off the diagonal, c_j = (-1)^j (doubled at both ends), and rows
that sum to zero, differentiates every polynomial of degree at most n exactly at the points x_j. -/
theorem differentiates {a b : ℝ} (hab : a < b) {n : ℕ} (hn : 1 ≤ n) (c : ℕ → ℝ) (D : ℕ → ℕ → ℝ)
    (hc : ∀ j ≤ n, c j = (if j = 0 ∨ j = n then 2 else 1) * (-1) ^ j)
    (hD : ∀ i ≤ n, ∀ j ≤ n, i ≠ j → D i j = c i / (c j * (pt a b n i - pt a b n j)))
    (hrow : ∀ i ≤ n, ∑ j ∈ range (n + 1), D i j = 0)
    (p : ℝ[X]) (hp : p.natDegree ≤ n) {i : ℕ} (hi : i ≤ n) :
    ∑ j ∈ range (n + 1), D i j * p.eval (pt a b n j) = (derivative p).eval (pt a b n i) := by
  have him : i ∈ range (n + 1) := by simpa [Nat.lt_succ_iff] using hi
  have hinj : Set.InjOn (pt a b n) (range (n + 1) : Finset ℕ) := by
    intro x hx y hy h
    simp only [coe_range, Set.mem_Iio] at hx hy
    rcases lt_trichotomy x y with l | l | l
    · exact absurd h (pt_lt hab (by omega) l).ne
    · exact l
    · exact absurd h (pt_lt hab (by omega) l).ne'
  have hdeg : p.degree < #(range (n + 1)) := by
    rw [card_range]
    exact lt_of_le_of_lt degree_le_natDegree (by exact_mod_cast Nat.lt_succ_of_le hp)
  rw [bary (range (n + 1)) (pt a b n) hinj hdeg him]
  have hz : ∑ j ∈ range (n + 1), D i j * p.eval (pt a b n j) =
      ∑ j ∈ range (n + 1), D i j * (p.eval (pt a b n j) - p.eval (pt a b n i)) := by
    simp only [mul_sub, sum_sub_distrib, ← sum_mul, hrow i hi, zero_mul, sub_zero]
  rw [hz, ← add_sum_erase _ _ him]
  simp only [sub_self, mul_zero, zero_add]
  refine sum_congr rfl fun j hj => ?_
  have hjn : j ≤ n := by simpa [Nat.lt_succ_iff] using mem_of_mem_erase hj
  have hij : i ≠ j := (ne_of_mem_erase hj).symm
  have hB : -(b - a) / 2 ≠ 0 := by
    intro h
    linarith
  have hQ0 : Q n ≠ 0 := fun h => by have := Q_natDegree hn; rw [h] at this; simp at this
  have hl : (Q n).leadingCoeff ≠ 0 := leadingCoeff_ne_zero.mpr hQ0
  have hw : ∀ k ≤ n, Lagrange.nodalWeight (range (n + 1)) (pt a b n) k =
      ((-(b - a) / 2) ^ (#(range (n + 1)) - 1))⁻¹ * ((Q n).leadingCoeff / ((n : ℝ) ^ 2 * c k)) := by
    intro k hk
    have hkm : k ∈ range (n + 1) := by simpa [Nat.lt_succ_iff] using hk
    rw [show pt a b n = fun j => (a + b) / 2 + (-(b - a) / 2) * node n j from funext (pt_eq a b n),
      weight_affine _ _ _ _ hkm, weight hn hk, hc k hk, cc]
  have hcne : ∀ k ≤ n, c k ≠ 0 := by
    intro k hk
    rw [hc k hk]
    apply mul_ne_zero
    · split_ifs <;> norm_num
    · exact pow_ne_zero _ (by norm_num)
  have hx : pt a b n i - pt a b n j ≠ 0 := sub_ne_zero_of_ne (fun h => hij (hinj him (mem_of_mem_erase hj) h))
  have hn0 : (n : ℝ) ≠ 0 := by exact_mod_cast (by omega : n ≠ 0)
  have hBp : (-(b - a) / 2) ^ (#(range (n + 1)) - 1) ≠ 0 := pow_ne_zero _ hB
  have ci := hcne i hi
  have cj := hcne j hjn
  rw [hD i hi j hjn hij, hw i hi, hw j hjn]
  congr 1
  generalize (-(b - a) / 2) ^ (#(range (n + 1)) - 1) = P at *
  generalize pt a b n i - pt a b n j = d at *
  field_simp

/-- one application of the matrix -/
def app (n : ℕ) (D : ℕ → ℕ → ℝ) (f : ℕ → ℝ) (i : ℕ) : ℝ := ∑ j ∈ range (n + 1), D i j * f j

/-- The k-th power of the matrix gives the k-th derivative at the points. -/
theorem differentiates_power {a b : ℝ} (hab : a < b) {n : ℕ} (hn : 1 ≤ n) (c : ℕ → ℝ) (D : ℕ → ℕ → ℝ)
    (hc : ∀ j ≤ n, c j = (if j = 0 ∨ j = n then 2 else 1) * (-1) ^ j)
    (hD : ∀ i ≤ n, ∀ j ≤ n, i ≠ j → D i j = c i / (c j * (pt a b n i - pt a b n j)))
    (hrow : ∀ i ≤ n, ∑ j ∈ range (n + 1), D i j = 0) (k : ℕ) :
    ∀ (p : ℝ[X]), p.natDegree ≤ n → ∀ i ≤ n,
      (app n D)^[k] (fun j => p.eval (pt a b n j)) i = (derivative^[k] p).eval (pt a b n i) := by
  induction k with
  | zero => intro p _ i _; rfl
  | succ k ih =>
    intro p hp i hi
    have hd : (derivative^[k] p).natDegree ≤ n :=
      (natDegree_iterate_derivative p k).trans ((Nat.sub_le _ _).trans hp)
    rw [Function.iterate_succ_apply', Function.iterate_succ_apply',
      ← differentiates hab hn c D hc hD hrow _ hd hi, app]
    refine sum_congr rfl fun j hj => ?_
    rw [ih p hp j (by simpa [Nat.lt_succ_iff] using hj)]

end Rk

#print axioms Rk.differentiates
#print axioms Rk.pt_lt
#print axioms Rk.differentiates_power
#print axioms Rk.pt_ends
