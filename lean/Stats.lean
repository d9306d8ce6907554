import Mathlib

/-! Code-independent facts that take the proved definitions to the remaining clauses of the properties. -/

namespace Dcor

open Finset BigOperators

variable {ι κ : Type*} [Fintype ι] [Fintype κ]

/-- Σ ab squared is at most Σ a² Σ b². -/
theorem cauchy_schwarz (a b : ι → ι → ℝ) :
    (∑ i, ∑ j, a i j * b i j) ^ 2 ≤ (∑ i, ∑ j, a i j * a i j) * ∑ i, ∑ j, b i j * b i j := by
  have h := Finset.sum_mul_sq_le_sq_mul_sq (Finset.univ : Finset (ι × ι)) (fun p => a p.1 p.2) (fun p => b p.1 p.2)
  simpa [Fintype.sum_prod_type, sq] using h

theorem sum_sq_nonneg (a : ι → ι → ℝ) : 0 ≤ ∑ i, ∑ j, a i j * a i j :=
  Finset.sum_nonneg fun _ _ => Finset.sum_nonneg fun _ _ => mul_self_nonneg _

/-- |c / √(v w)| ≤ 1 from c² ≤ v w: ranges of the correlations (C06, C12). -/
theorem correlation_range {c v w : ℝ} (h : c ^ 2 ≤ v * w) : |c / Real.sqrt (v * w)| ≤ 1 := by
  rcases eq_or_lt_of_le (le_trans (sq_nonneg c) h) with h0 | h0
  · rw [← h0]; simp
  · rw [abs_div, abs_of_pos (Real.sqrt_pos.mpr h0), div_le_one (Real.sqrt_pos.mpr h0)]
    exact Real.abs_le_sqrt h

/-- and of distance_correlation, the square root of the clipped ratio. -/
theorem dcor_range {c v w : ℝ} (h : c ^ 2 ≤ v * w) :
    0 ≤ Real.sqrt (max (c / Real.sqrt (v * w)) 0) ∧ Real.sqrt (max (c / Real.sqrt (v * w)) 0) ≤ 1 := by
  refine ⟨Real.sqrt_nonneg _, ?_⟩
  rw [Real.sqrt_le_left zero_le_one, one_pow]
  exact max_le (le_trans (le_abs_self _) (correlation_range h)) zero_le_one

/-- A vanishing product of the variances forces the covariance to vanish (the degenerate case of C06). -/
theorem degenerate {c v w : ℝ} (h : c ^ 2 ≤ v * w) (h0 : v * w = 0) : c = 0 := by
  rw [h0] at h
  exact pow_eq_zero_iff (two_ne_zero) |>.mp (le_antisymm h (sq_nonneg c))

/-- Multiplying a sample by b ≠ 0: covariance times s, variance times s², s = |b|^e > 0 (C07). -/
theorem dcor_scale {s c v w : ℝ} (hs : 0 < s) :
    s * c / Real.sqrt (s ^ 2 * v * w) = c / Real.sqrt (v * w) := by
  rw [mul_assoc, Real.sqrt_mul (sq_nonneg s), Real.sqrt_sq hs.le, mul_div_mul_left _ _ hs.ne']

theorem dcor_scale_zero {s v w : ℝ} (hs : 0 < s) : s ^ 2 * v * w = 0 ↔ v * w = 0 := by
  rw [mul_assoc]
  simp [hs.ne']

/-- An orthogonal map keeps the squared distances (C07). -/
theorem dcov_orthogonal [DecidableEq κ] (U : Matrix κ κ ℝ) (hU : U * U.transpose = 1) (x y : κ → ℝ) :
    ∑ k, (∑ l, x l * U l k - ∑ l, y l * U l k) ^ 2 = ∑ l, (x l - y l) ^ 2 := by
  have h1 : ∀ k, ∑ l, x l * U l k - ∑ l, y l * U l k = ∑ l, (x l - y l) * U l k := by
    intro k; rw [← Finset.sum_sub_distrib]; exact Finset.sum_congr rfl fun l _ => by ring
  simp only [h1]
  have h2 : ∀ l m, ∑ k, U l k * U m k = if l = m then 1 else 0 := by
    intro l m
    have := congrFun (congrFun hU l) m
    simpa [Matrix.mul_apply, Matrix.transpose_apply, Matrix.one_apply] using this
  calc ∑ k, (∑ l, (x l - y l) * U l k) ^ 2
      = ∑ k, ∑ l, ∑ m, ((x l - y l) * (x m - y m)) * (U l k * U m k) := by
        apply Finset.sum_congr rfl; intro k _
        rw [sq, Finset.sum_mul_sum]
        exact Finset.sum_congr rfl fun l _ => Finset.sum_congr rfl fun m _ => by ring
    _ = ∑ l, ∑ m, ((x l - y l) * (x m - y m)) * ∑ k, U l k * U m k := by
        rw [Finset.sum_comm]
        apply Finset.sum_congr rfl; intro l _
        rw [Finset.sum_comm]
        apply Finset.sum_congr rfl; intro m _
        rw [Finset.mul_sum]
    _ = ∑ l, (x l - y l) ^ 2 := by
        apply Finset.sum_congr rfl; intro l _
        simp [h2, sq]

/-- The rows of a double centered matrix sum to 0 (C10); the columns likewise, the centering being symmetric. -/
theorem centered_rows [Nonempty ι] (a : ι → ι → ℝ) (i : ι) :
    ∑ j, (a i j - (∑ k, a i k) / Fintype.card ι - (∑ k, a k j) / Fintype.card ι
      + (∑ k, ∑ l, a k l) / (Fintype.card ι : ℝ) ^ 2) = 0 := by
  have hn : (Fintype.card ι : ℝ) ≠ 0 := by exact_mod_cast Fintype.card_ne_zero
  have hc : ∑ j, (∑ k, a k j) / (Fintype.card ι : ℝ) = (∑ k, ∑ l, a k l) / Fintype.card ι := by
    rw [← Finset.sum_div, Finset.sum_comm]
  rw [Finset.sum_add_distrib, Finset.sum_sub_distrib, Finset.sum_sub_distrib, hc]
  simp only [Finset.sum_const, Finset.card_univ, nsmul_eq_mul]
  field_simp
  ring

/-- The inner product of the U-centered matrices is k ⟪a, b⟫ with k > 0; laws of the projections (C11, C12). -/
theorem complementary_orthogonal {ab aa : ℝ} (h : aa ≠ 0) : ab - ab / aa * aa = 0 := by
  field_simp; ring

theorem projection_idempotent {ab aa : ℝ} (h : aa ≠ 0) (x : ℝ) : ab / aa * aa / aa * x = ab / aa * x := by
  field_simp

/-- <a - αc, b - βc> = <a,b> - <a,c><b,c>/<c,c> for α = <a,c>/<c,c>, β = <b,c>/<c,c>. -/
theorem complementary_product (a b c : ι → ι → ℝ) (h : (∑ i, ∑ j, c i j * c i j) ≠ 0) :
    ∑ i, ∑ j, (a i j - (∑ i, ∑ j, a i j * c i j) / (∑ i, ∑ j, c i j * c i j) * c i j) *
      (b i j - (∑ i, ∑ j, b i j * c i j) / (∑ i, ∑ j, c i j * c i j) * c i j)
    = ∑ i, ∑ j, a i j * b i j - (∑ i, ∑ j, a i j * c i j) * (∑ i, ∑ j, b i j * c i j) / ∑ i, ∑ j, c i j * c i j := by
  set ac := ∑ i, ∑ j, a i j * c i j with hac
  set bc := ∑ i, ∑ j, b i j * c i j with hbc
  set cc := ∑ i, ∑ j, c i j * c i j with hcc
  have e : ∀ i j, (a i j - ac / cc * c i j) * (b i j - bc / cc * c i j)
      = a i j * b i j - bc / cc * (a i j * c i j) - ac / cc * (b i j * c i j) + ac / cc * (bc / cc) * (c i j * c i j) := by
    intro i j; ring
  simp only [e, Finset.sum_add_distrib, Finset.sum_sub_distrib, ← Finset.mul_sum]
  rw [← hac, ← hbc, ← hcc]
  field_simp
  ring

/-- A p-value (1 + k) / (R + 1) with 0 ≤ k ≤ R lies in [1/(R+1), 1] (C15). -/
theorem pvalue_range {k R : ℕ} (h : k ≤ R) : (1 : ℝ) / (R + 1) ≤ (1 + k) / (R + 1) ∧ ((1 : ℝ) + k) / (R + 1) ≤ 1 := by
  have hR : (0 : ℝ) < R + 1 := by positivity
  have hk : (k : ℝ) ≤ R := by exact_mod_cast h
  constructor
  · gcongr; linarith [show (0 : ℝ) ≤ k by positivity]
  · rw [div_le_one hR]; linarith

end Dcor
