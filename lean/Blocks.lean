/- Facts used by the loop invariants of the merge sort (pvc/invar.py).
   blk(L, i) = floor(i / L) on natural numbers; mult(g, s) : g divides s. -/
import Mathlib

namespace Blocks

theorem blocks_of_one (i : ℕ) : i / 1 = i := Nat.div_one i

theorem monotone (L i j : ℕ) (h : i ≤ j) : i / L ≤ j / L := Nat.div_le_div_right h

theorem blocks_of_blocks (L i j : ℕ) (h : i / L = j / L) : i / (2 * L) = j / (2 * L) := by
  rw [mul_comm, ← Nat.div_div_eq_div_mul, ← Nat.div_div_eq_div_mul, h]

theorem one_block (L n i : ℕ) (h : n ≤ L) (hi : i < n) : i / L = 0 :=
  Nat.div_eq_of_lt (lt_of_lt_of_le hi h)

/-- i lies in the block that starts at a multiple s of g. -/
theorem block_at (g s i : ℕ) (hg : 1 ≤ g) (h : g ∣ s) : i / g = s / g ↔ s ≤ i ∧ i < s + g := by
  obtain ⟨k, rfl⟩ := h
  have h1 : g * k / g = k := Nat.mul_div_cancel_left k (by omega)
  rw [h1, Nat.div_eq_iff (by omega)]
  constructor
  · rintro ⟨a, b⟩
    constructor
    · nlinarith [mul_comm g k]
    · have := mul_comm g k
      omega
  · rintro ⟨a, b⟩
    have := mul_comm g k
    constructor
    · omega
    · omega

theorem pair_of_blocks (L s i : ℕ) (hL : 1 ≤ L) (h : 2 * L ∣ s) :
    i / (2 * L) = s / (2 * L) ↔ s ≤ i ∧ i < s + 2 * L := block_at (2 * L) s i (by omega) h

theorem first_block (L s i : ℕ) (hL : 1 ≤ L) (h : 2 * L ∣ s) :
    i / L = s / L ↔ s ≤ i ∧ i < s + L := block_at L s i hL (Dvd.dvd.trans (Dvd.intro_left 2 rfl) h)

theorem second_block (L s i : ℕ) (hL : 1 ≤ L) (h : 2 * L ∣ s) :
    i / L = (s + L) / L ↔ s + L ≤ i ∧ i < s + 2 * L := by
  have h1 : L ∣ s + L := Dvd.dvd.add (Dvd.dvd.trans (Dvd.intro_left 2 rfl) h) (dvd_refl L)
  rw [block_at L (s + L) i hL h1]
  constructor <;> rintro ⟨a, b⟩ <;> exact ⟨a, by omega⟩

theorem mult_zero (g : ℕ) : g ∣ 0 := dvd_zero g

theorem mult_step (g s : ℕ) (h : g ∣ s) : g ∣ s + g := Dvd.dvd.add h (dvd_refl g)

/-- Positions within range and without repetition are a permutation. -/
theorem permutation {n : ℕ} (p : Fin n → Fin n) (h : Function.Injective p) : Function.Bijective p :=
  Finite.injective_iff_bijective.mp h

/-- A sum over a permutation, by its inverse. -/
theorem reindex {n : ℕ} (P : Equiv.Perm (Fin n)) (f w : Fin n → ℝ) :
    ∑ k, f k * w (P k) = ∑ i, f (P.symm i) * w i := by
  rw [← Equiv.sum_comp P (fun i => f (P.symm i) * w i)]
  simp

/-- Sums with the same coefficients. -/
theorem coefficients {n : ℕ} (c d w : Fin n → ℝ) (h : ∀ i, c i = d i) : ∑ i, c i * w i = ∑ i, d i * w i := by
  simp [h]

end Blocks
