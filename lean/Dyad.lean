import Mathlib

/-! The two facts about dyadic blocks that the contract of `_dyad_update` rests on. -/

namespace Dcor

open Finset

/-- First position of the blocks of level `k`, in an array with `2 ^ (L + 1)` entries. -/
def off (L k : ℕ) : ℤ := 2 ^ (L + 1) - 2 ^ (L + 1 - k)

/-- `m` without its `l` lowest bits. -/
def low (m l : ℕ) : ℕ := m / 2 ^ l * 2 ^ l

lemma low_zero (m : ℕ) : low m 0 = m := by simp [low]

lemma low_top {m L : ℕ} (h : m < 2 ^ L) : low m L = 0 := by
  simp [low, Nat.div_eq_of_lt h]

lemma div_succ (m l : ℕ) : m / 2 ^ (l + 1) = m / 2 ^ l / 2 := by
  rw [pow_succ, Nat.div_div_eq_div_mul]

lemma floor_eq (m l : ℕ) : ⌊(m : ℝ) / 2 ^ l⌋ = ((m / 2 ^ l : ℕ) : ℤ) := by
  have h : (0 : ℝ) < 2 ^ l := by positivity
  rw [Int.floor_eq_iff]
  constructor
  · rw [le_div_iff₀ h]
    have := Nat.div_mul_le_self m (2 ^ l)
    exact_mod_cast this
  · rw [div_lt_iff₀ h]
    have := Nat.lt_div_mul_add (a := m) (b := 2 ^ l) (by positivity)
    have h2 : m < (m / 2 ^ l + 1) * 2 ^ l := by nlinarith
    exact_mod_cast h2

lemma ceil_eq_iff (q l : ℕ) (t : ℤ) : ⌈(q : ℝ) / 2 ^ l⌉ = t ↔ (t - 1) * 2 ^ l < (q : ℤ) ∧ (q : ℤ) ≤ t * 2 ^ l := by
  have h : (0 : ℝ) < 2 ^ l := by positivity
  rw [Int.ceil_eq_iff, lt_div_iff₀ h, div_le_iff₀ h]
  constructor
  · rintro ⟨a, b⟩; exact ⟨by exact_mod_cast a, by exact_mod_cast b⟩
  · rintro ⟨a, b⟩; exact ⟨by exact_mod_cast a, by exact_mod_cast b⟩

/-- `1 ≤ ⌈q / 2^l⌉ ≤ 2^(L-l)` for `1 ≤ q ≤ 2^L`; `0 ≤ ⌊m / 2^l⌋ < 2^(L-l)` for `m < 2^L`. -/
theorem dyad_bounds {L l q m : ℕ} (hl : l < L) (hq : 1 ≤ q) (hqL : q ≤ 2 ^ L) (hm : m < 2 ^ L) :
    1 ≤ ⌈(q : ℝ) / 2 ^ l⌉ ∧ ⌈(q : ℝ) / 2 ^ l⌉ ≤ 2 ^ (L - l) ∧ 0 ≤ ⌊(m : ℝ) / 2 ^ l⌋ ∧ ⌊(m : ℝ) / 2 ^ l⌋ < 2 ^ (L - l)
      ∧ (1 : ℤ) ≤ 2 ^ (L - l) ∧ (2 : ℤ) ^ (L - l) ≤ 2 ^ L := by
  have h : (0 : ℝ) < 2 ^ l := by positivity
  have hsplit : 2 ^ L = 2 ^ (L - l) * 2 ^ l := by rw [← pow_add]; congr 1; omega
  refine ⟨?_, ?_, ?_, ?_, one_le_pow₀ (by norm_num), pow_le_pow_right₀ (by norm_num) (by omega)⟩
  · rw [Int.one_le_ceil_iff]
    have : (0 : ℝ) < q := by exact_mod_cast hq
    positivity
  · rw [Int.ceil_le]
    push_cast
    rw [div_le_iff₀ h]
    have : q ≤ 2 ^ (L - l) * 2 ^ l := by rw [← hsplit]; exact hqL
    exact_mod_cast this
  · rw [floor_eq]; positivity
  · rw [floor_eq]
    have : m / 2 ^ l < 2 ^ (L - l) := by
      rw [Nat.div_lt_iff_lt_mul (by positivity), ← hsplit]; exact hm
    exact_mod_cast this

lemma off_succ {L k : ℕ} (h : k < L + 1) : off L (k + 1) = off L k + 2 ^ (L - k) := by
  unfold off
  have h1 : L + 1 - k = (L - k) + 1 := by omega
  have h2 : L + 1 - (k + 1) = L - k := by omega
  rw [h1, h2, pow_succ]; ring

lemma off_mono {L a b : ℕ} (hab : a ≤ b) : off L a ≤ off L b := by
  unfold off
  have : (2 : ℤ) ^ (L + 1 - b) ≤ 2 ^ (L + 1 - a) := pow_le_pow_right₀ (by norm_num) (by omega)
  linarith

/-- Blocks of different levels do not meet. -/
lemma block_unique {L k l : ℕ} (hk : k < L) (hl : l < L) {a b : ℤ} (ha : 0 ≤ a) (ha' : a < 2 ^ (L - k))
    (hb : 0 ≤ b) (hb' : b < 2 ^ (L - l)) (h : a + off L k = b + off L l) : k = l ∧ a = b := by
  rcases lt_trichotomy k l with hlt | heq | hgt
  · have h1 := off_succ (L := L) (k := k) (by omega)
    have h2 := off_mono (L := L) (a := k + 1) (b := l) hlt
    omega
  · subst heq; exact ⟨rfl, by linarith⟩
  · have h1 := off_succ (L := L) (k := l) (by omega)
    have h2 := off_mono (L := L) (a := l + 1) (b := k) hgt
    omega

lemma low_step_odd {m l : ℕ} (h : (m / 2 ^ l) % 2 = 1) : (m / 2 ^ l - 1) * 2 ^ l = low m (l + 1) := by
  unfold low
  rw [div_succ, pow_succ]
  have : m / 2 ^ l - 1 = m / 2 ^ l / 2 * 2 := by omega
  rw [this]; ring

lemma low_step_even {m l : ℕ} (h : (m / 2 ^ l) % 2 = 0) : low m l = low m (l + 1) := by
  unfold low
  rw [div_succ, pow_succ]
  have : m / 2 ^ l = m / 2 ^ l / 2 * 2 := by omega
  conv_lhs => rw [this]
  ring

/-- The level `l` reads the values `q` with `low m (l+1) < q ≤ low m l`, if bit `l` of `m` is set. -/
lemma level {m l q : ℕ} :
    (if ((m / 2 ^ l : ℕ) : ℤ) % 2 = 1 then (if ⌈(q : ℝ) / 2 ^ l⌉ = ((m / 2 ^ l : ℕ) : ℤ) then (1 : ℤ) else 0) else 0)
      = (if q ≤ low m l then 1 else 0) - (if q ≤ low m (l + 1) then 1 else 0) := by
  have hb : low m l = m / 2 ^ l * 2 ^ l := rfl
  have hodd := @low_step_odd m l
  have heven := @low_step_even m l
  generalize m / 2 ^ l = k at *
  rcases Nat.mod_two_eq_zero_or_one k with h | h
  · have h0 : ¬ ((k : ℤ) % 2 = 1) := by omega
    rw [if_neg h0, heven h]; ring
  · have h1 : ((k : ℤ) % 2 = 1) := by omega
    rw [if_pos h1]
    simp only [ceil_eq_iff]
    have ho := hodd h
    have hle : low m (l + 1) ≤ low m l := by
      rw [← ho, hb]; exact Nat.mul_le_mul_right _ (by omega)
    have e1 : ((k : ℤ) - 1) * 2 ^ l = (low m (l + 1) : ℤ) := by
      rw [← ho]
      obtain ⟨t, rfl⟩ : ∃ t, k = t + 1 := ⟨k - 1, by omega⟩
      simp
    have e2 : (k : ℤ) * 2 ^ l = (low m l : ℤ) := by rw [hb]; push_cast; rfl
    rw [e1, e2]
    split_ifs <;> omega

/-- The sum over the levels of `_dyad_update` counts `q` once if `q ≤ m`, and not otherwise. -/
theorem dyadic {L q m : ℕ} (hq : 1 ≤ q) (hqL : q ≤ 2 ^ L) (hm : m < 2 ^ L) :
    (∑ l ∈ range L, if (⌊(m : ℝ) / 2 ^ l⌋ - 1) % 2 = 0 then
        ∑ k ∈ range L, (if ⌈(q : ℝ) / 2 ^ k⌉ - 1 + off L k = ⌊(m : ℝ) / 2 ^ l⌋ - 1 + off L l then (1 : ℤ) else 0)
      else 0) = if q ≤ m then 1 else 0 := by
  have key : ∀ l ∈ range L, (if (⌊(m : ℝ) / 2 ^ l⌋ - 1) % 2 = 0 then
        ∑ k ∈ range L, (if ⌈(q : ℝ) / 2 ^ k⌉ - 1 + off L k = ⌊(m : ℝ) / 2 ^ l⌋ - 1 + off L l then (1 : ℤ) else 0)
      else 0) = (if q ≤ low m l then 1 else 0) - (if q ≤ low m (l + 1) then 1 else 0) := by
    intro l hl
    rw [mem_range] at hl
    rw [← level, floor_eq]
    by_cases hodd : ((m / 2 ^ l : ℕ) : ℤ) % 2 = 1
    · have h0 : (((m / 2 ^ l : ℕ) : ℤ) - 1) % 2 = 0 := by omega
      rw [if_pos h0, if_pos hodd]
      have hb := dyad_bounds (L := L) (l := l) hl hq hqL hm
      rw [floor_eq] at hb
      have hpos : (1 : ℤ) ≤ ((m / 2 ^ l : ℕ) : ℤ) := by omega
      rw [Finset.sum_eq_single_of_mem l (mem_range.mpr hl)]
      · congr 1
        apply propext
        constructor
        · intro h; linarith
        · intro h; rw [h]
      · intro k hk hne
        rw [mem_range] at hk
        have hc := dyad_bounds (L := L) (l := k) hk hq hqL hm
        rw [if_neg]
        intro heq
        exact hne (block_unique hk hl (by linarith [hc.1]) (by linarith [hc.2.1]) (by linarith) (by linarith [hb.2.2.2.1]) heq).1
    · have h0 : ¬ ((((m / 2 ^ l : ℕ) : ℤ) - 1) % 2 = 0) := by omega
      rw [if_neg h0, if_neg hodd]
  rw [Finset.sum_congr rfl key, Finset.sum_range_sub']
  rw [low_zero, low_top hm]
  have : ¬ (q ≤ 0) := by omega
  rw [if_neg this]; ring

end Dcor
