import Mathlib

/-! Distances after whitening are invariant under affine maps (C08). -/

namespace Dcor

open Matrix

variable {p : Type*} [Fintype p] [DecidableEq p]

/-- With C = V diag(w) Vᵀ, V orthogonal and w > 0, the matrix S = V diag(w^(-1/2)) Vᵀ satisfies S Sᵀ = C⁻¹. -/
theorem whitening (V : Matrix p p ℝ) (w : p → ℝ) (hV : V * Vᵀ = 1) (hw : ∀ i, 0 < w i) :
    (V * diagonal (fun i => (Real.sqrt (w i))⁻¹) * Vᵀ) * (V * diagonal (fun i => (Real.sqrt (w i))⁻¹) * Vᵀ)ᵀ
      = (V * diagonal w * Vᵀ)⁻¹ := by
  have hV' : Vᵀ * V = 1 := mul_eq_one_comm.mp hV
  have hd : diagonal (fun i => (Real.sqrt (w i))⁻¹) * diagonal (fun i => (Real.sqrt (w i))⁻¹) = diagonal fun i => (w i)⁻¹ := by
    rw [diagonal_mul_diagonal]
    congr 1; funext i
    rw [← mul_inv, Real.mul_self_sqrt (hw i).le]
  have hl : (V * diagonal (fun i => (Real.sqrt (w i))⁻¹) * Vᵀ) * (V * diagonal (fun i => (Real.sqrt (w i))⁻¹) * Vᵀ)ᵀ
      = V * diagonal (fun i => (w i)⁻¹) * Vᵀ := by
    rw [transpose_mul, transpose_mul, transpose_transpose, diagonal_transpose]
    calc V * diagonal (fun i => (Real.sqrt (w i))⁻¹) * Vᵀ * (V * (diagonal (fun i => (Real.sqrt (w i))⁻¹) * Vᵀ))
        = V * (diagonal (fun i => (Real.sqrt (w i))⁻¹) * (Vᵀ * V) * diagonal (fun i => (Real.sqrt (w i))⁻¹)) * Vᵀ := by
          simp only [Matrix.mul_assoc]
      _ = _ := by rw [hV', Matrix.mul_one, hd]
  rw [hl]
  symm
  apply inv_eq_right_inv
  calc V * diagonal w * Vᵀ * (V * diagonal (fun i => (w i)⁻¹) * Vᵀ)
      = V * (diagonal w * (Vᵀ * V) * diagonal (fun i => (w i)⁻¹)) * Vᵀ := by simp only [Matrix.mul_assoc]
    _ = 1 := by
      rw [hV', Matrix.mul_one, diagonal_mul_diagonal]
      have : (fun i => w i * (w i)⁻¹) = fun _ => (1 : ℝ) := by funext i; exact mul_inv_cancel₀ (hw i).ne'
      rw [this, diagonal_one, Matrix.mul_one, hV]

/-- The squared distance of whitened observations with difference d is d C⁻¹ dᵀ. -/
theorem whitened_distance {C S : Matrix p p ℝ} (h : S * Sᵀ = C⁻¹) (d : p → ℝ) :
    (d ᵥ* S) ⬝ᵥ (d ᵥ* S) = d ⬝ᵥ (C⁻¹ *ᵥ d) := by
  rw [← h, ← mulVec_mulVec, dotProduct_mulVec, mulVec_transpose]

/-- The sample x A + c has differences d A and covariance Aᵀ C A, and the same whitened distances. -/
theorem affine_invariant {C A : Matrix p p ℝ} (hA : IsUnit A.det) (d : p → ℝ) :
    (d ᵥ* A) ⬝ᵥ ((Aᵀ * C * A)⁻¹ *ᵥ (d ᵥ* A)) = d ⬝ᵥ (C⁻¹ *ᵥ d) := by
  have hAt : IsUnit Aᵀ.det := by rwa [det_transpose]
  rw [Matrix.mul_inv_rev, Matrix.mul_inv_rev]
  rw [← mulVec_transpose A d, mulVec_mulVec]
  have e : A⁻¹ * (C⁻¹ * (Aᵀ)⁻¹) * Aᵀ = A⁻¹ * C⁻¹ := by
    rw [Matrix.mul_assoc, Matrix.mul_assoc, nonsing_inv_mul _ hAt, Matrix.mul_one]
  rw [e, mulVec_transpose, ← dotProduct_mulVec, mulVec_mulVec, ← Matrix.mul_assoc, mul_nonsing_inv _ hA, Matrix.one_mul]

omit [DecidableEq p] in
/-- The centered sample X of the differences to the mean becomes X A, whose covariance matrix is Aᵀ C A. -/
theorem covariance_map {m : Type*} [Fintype m] (X : Matrix m p ℝ) (A : Matrix p p ℝ) (k : ℝ) :
    k • ((X * A)ᵀ * (X * A)) = Aᵀ * (k • (Xᵀ * X)) * A := by
  rw [transpose_mul, Matrix.mul_smul, Matrix.smul_mul]
  simp only [Matrix.mul_assoc]

end Dcor
