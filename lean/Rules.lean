import Mathlib

/-! The rules of the normal form (pvc/nf.py) and of the loop summaries (pvc/loops.py). -/

namespace Dcor.Rules

open Finset

variable {N M : ℕ}

/-- R1: linearity. -/
theorem r1_add (f g : ℕ → ℝ) : ∑ b ∈ range N, (f b + g b) = ∑ b ∈ range N, f b + ∑ b ∈ range N, g b :=
  sum_add_distrib

theorem r1_mul (k : ℝ) (f : ℕ → ℝ) : ∑ b ∈ range N, k * f b = k * ∑ b ∈ range N, f b :=
  (mul_sum _ _ _).symm

theorem r1_const (k : ℝ) : ∑ _b ∈ range N, k = N * k := by simp

theorem r1_swap (f : ℕ → ℕ → ℝ) : ∑ a ∈ range N, ∑ b ∈ range M, f a b = ∑ b ∈ range M, ∑ a ∈ range N, f a b :=
  sum_comm

/-- R2: independent binders. -/
theorem r2 (f g : ℕ → ℝ) : ∑ a ∈ range N, ∑ b ∈ range M, f a * g b = (∑ a ∈ range N, f a) * ∑ b ∈ range M, g b :=
  (sum_mul_sum _ _ _ _).symm

/-- R3: a binder fixed by an equality. -/
theorem r3 (t : ℤ) (f : ℤ → ℝ) :
    ∑ b ∈ range N, (if (b : ℤ) = t then f b else 0) = if 0 ≤ t ∧ t < N then f t else 0 := by
  by_cases h : 0 ≤ t ∧ t < N
  · rw [if_pos h, Finset.sum_eq_single_of_mem t.toNat (by rw [mem_range]; omega)]
    · have : ((t.toNat : ℕ) : ℤ) = t := by omega
      simp [this]
    · intro b _ hb
      rw [if_neg]; omega
  · rw [if_neg h]
    apply Finset.sum_eq_zero
    intro b hb
    rw [mem_range] at hb
    rw [if_neg]; omega

/-- R4: renumbering by a permutation. -/
theorem r4 (σ : Equiv.Perm (Fin N)) (f : Fin N → ℝ) : ∑ b, f (σ b) = ∑ b, f b :=
  Equiv.sum_comp σ f

/-- R5: indicators. -/
theorem r5_sq (c : Prop) [Decidable c] : (if c then (1 : ℝ) else 0) ^ 2 = if c then 1 else 0 := by split_ifs <;> norm_num

theorem r5_not (c : Prop) [Decidable c] : (if ¬c then (1 : ℝ) else 0) = 1 - if c then 1 else 0 := by split_ifs <;> norm_num

theorem r5_and (c d : Prop) [Decidable c] [Decidable d] :
    (if c ∧ d then (1 : ℝ) else 0) = (if c then 1 else 0) * if d then 1 else 0 := by
  by_cases c <;> by_cases d <;> simp [*]

theorem r5_or (c d : Prop) [Decidable c] [Decidable d] :
    (if c ∨ d then (1 : ℝ) else 0) = (if c then 1 else 0) + (if d then 1 else 0) - (if c then 1 else 0) * if d then 1 else 0 := by
  by_cases c <;> by_cases d <;> simp [*]

/-- a < b, a = b, b < a: exactly one. -/
theorem r5_tri (a b : ℝ) : (if a < b then (1 : ℝ) else 0) + (if a = b then 1 else 0) + (if b < a then 1 else 0) = 1 := by
  rcases lt_trichotomy a b with h | h | h
  · simp [h, h.ne, not_lt.mpr h.le]
  · simp [h]
  · simp [h, h.ne', not_lt.mpr h.le]

theorem r5_abs (a b : ℝ) : |a - b| = (a - b) * (1 - 2 * if a < b then 1 else 0) := by
  split_ifs with h
  · rw [abs_of_neg (by linarith)]; ring
  · rw [abs_of_nonneg (by linarith)]; ring

/-- R6: absolute values and roots. -/
theorem r6_abs (p : ℝ) : |p| ^ 2 = p ^ 2 := sq_abs p

theorem r6_sqrt {p : ℝ} (h : 0 ≤ p) : Real.sqrt p ^ 2 = p := Real.sq_sqrt h

theorem r6_sqrt_sq (p : ℝ) : Real.sqrt (p ^ 2) = |p| := Real.sqrt_sq_eq_abs p

theorem r6_abs_mul (a p : ℝ) : |a * p| = |a| * |p| := abs_mul a p

theorem r6_rpow_sq (a p e : ℝ) (hp : 0 ≤ p) : (a ^ 2 * p) ^ e = |a| ^ (2 * e) * p ^ e := by
  rw [Real.mul_rpow (sq_nonneg a) hp, ← sq_abs a, ← Real.rpow_natCast |a| 2, ← Real.rpow_mul (abs_nonneg a)]
  norm_num

theorem r6_rpow_mul {a p : ℝ} (e : ℝ) (ha : 0 ≤ a) (hp : 0 ≤ p) : (a * p) ^ e = a ^ e * p ^ e := Real.mul_rpow ha hp

theorem r6_rpow_rpow {a : ℝ} (d e : ℝ) (ha : 0 ≤ a) : (a ^ d) ^ e = a ^ (d * e) := (Real.rpow_mul ha d e).symm

theorem r6_rpow_zero {e : ℝ} (he : 0 < e) : (0 : ℝ) ^ e = 0 := Real.zero_rpow he.ne'

theorem r6_rpow_ind {e : ℝ} (he : 0 < e) (c : Prop) [Decidable c] : (if c then (1 : ℝ) else 0) ^ e = if c then 1 else 0 := by
  split_ifs
  · simp
  · exact Real.zero_rpow he.ne'

/-- R7: geometric sums. -/
theorem r7 (c : ℤ) {lo hi : ℕ} (h : lo ≤ hi) :
    ∑ b ∈ Ico lo hi, (2 : ℝ) ^ (c - (b : ℤ)) = 2 ^ (c - lo + 1) - 2 ^ (c - hi + 1) := by
  induction hi, h using Nat.le_induction with
  | base => simp
  | succ k hk ih =>
    rw [Finset.sum_Ico_succ_top hk, ih]
    have e : (2 : ℝ) ^ (c - k + 1) = 2 * 2 ^ (c - k) := by rw [zpow_add₀ (by norm_num)]; norm_num; ring
    have e' : c - ((k + 1 : ℕ) : ℤ) + 1 = c - k := by push_cast; ring
    rw [e, e']; ring

theorem r7_below (t : ℕ) (ht : t ≤ N) (f : ℕ → ℝ) : ∑ b ∈ range N, (if b < t then f b else 0) = ∑ b ∈ Ico 0 t, f b := by
  rw [← Finset.sum_filter]
  apply Finset.sum_congr _ (fun _ _ => rfl)
  ext b; simp only [mem_filter, mem_range, mem_Ico]; omega

theorem r7_above (t : ℕ) (f : ℕ → ℝ) : ∑ b ∈ range N, (if t ≤ b then f b else 0) = ∑ b ∈ Ico t N, f b := by
  rw [← Finset.sum_filter]
  apply Finset.sum_congr _ (fun _ _ => rfl)
  ext b; simp only [mem_filter, mem_range, mem_Ico]; omega

/-- R9: counting. -/
theorem r9_below {t : ℕ} (h : t ≤ N) : ∑ b ∈ range N, (if b < t then (1 : ℝ) else 0) = t := by
  rw [r7_below t h]; simp

theorem r9_above {t : ℕ} (h : t < N) : ∑ b ∈ range N, (if t < b then (1 : ℝ) else 0) = N - 1 - t := by
  have : ∀ b, (if t < b then (1 : ℝ) else 0) = if t + 1 ≤ b then 1 else 0 := fun b => rfl
  simp only [this]
  rw [r7_above]
  simp [Nat.cast_sub (show t + 1 ≤ N by omega)]; ring

theorem r9_sum : ∑ b ∈ range N, (b : ℝ) = N * (N - 1) / 2 := by
  induction N with
  | zero => simp
  | succ k ih => rw [Finset.sum_range_succ, ih]; push_cast; ring

/-- R8: pairs. -/
theorem r8_lt : ∑ j ∈ range N, ∑ i ∈ range N, (if i < j then (1 : ℝ) else 0) = N * (N - 1) / 2 := by
  rw [← r9_sum]
  apply Finset.sum_congr rfl
  intro j hj
  rw [mem_range] at hj
  exact r9_below hj.le

theorem r8_le : ∑ j ∈ range N, ∑ i ∈ range N, (if i ≤ j then (1 : ℝ) else 0) = N * (N + 1) / 2 := by
  have : ∀ j ∈ range N, ∑ i ∈ range N, (if i ≤ j then (1 : ℝ) else 0) = j + 1 := by
    intro j hj
    rw [mem_range] at hj
    have h := r9_below (N := N) (t := j + 1) hj
    have e : ∀ i, (if i < j + 1 then (1 : ℝ) else 0) = if i ≤ j then 1 else 0 := by
      intro i; simp only [Nat.lt_succ_iff]
    simp only [e] at h
    rw [h]; push_cast; ring
  rw [Finset.sum_congr rfl this, Finset.sum_add_distrib, r9_sum]
  simp; ring

/-- A loop that adds D i in iteration i. -/
theorem accumulate (s : ℕ → ℝ) (D : ℕ → ℝ) (h : ∀ i < N, s (i + 1) = s i + D i) {k : ℕ} (hk : k ≤ N) :
    s k = s 0 + ∑ j ∈ range N, if j < k then D j else 0 := by
  rw [r7_below k hk]
  rw [← Finset.range_eq_Ico]
  induction k with
  | zero => simp
  | succ k ih => rw [h k (by omega), ih (by omega), Finset.sum_range_succ]; ring

/-- A loop that assigns V i to the element t i in iteration i (where the condition r i holds), t injective. -/
theorem overwrite {ι : Type*} [DecidableEq ι] (s : ℕ → ι → ℝ) (t : ℕ → ι) (r : ℕ → Prop) [DecidablePred r] (V : ℕ → ℝ)
    (inj : ∀ i < N, ∀ j < N, t i = t j → i = j)
    (h : ∀ i < N, ∀ k, s (i + 1) k = if k = t i ∧ r i then V i else s i k) {n : ℕ} (hn : n ≤ N) :
    (∀ i < n, s n (t i) = if r i then V i else s 0 (t i)) ∧ ∀ k, (∀ i < n, t i ≠ k) → s n k = s 0 k := by
  induction n with
  | zero => simp
  | succ m ih =>
    obtain ⟨h1, h2⟩ := ih (by omega)
    constructor
    · intro i hi
      rw [h m (by omega)]
      by_cases e : i = m
      · subst e
        have : s i (t i) = s 0 (t i) := h2 (t i) (fun j hj he => by have := inj j (by omega) i (by omega) he; omega)
        simp [this]
      · have hne : t i ≠ t m := fun he => e (inj i (by omega) m (by omega) he)
        rw [if_neg (fun hh => hne hh.1)]
        exact h1 i (by omega)
    · intro k hk
      rw [h m (by omega), if_neg (fun hh => hk m (by omega) hh.1.symm)]
      exact h2 k (fun i hi => hk i (by omega))

end Dcor.Rules
