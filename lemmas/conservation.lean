import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Algebra.BigOperators.Fin
import Mathlib.Algebra.Order.BigOperators.Group.Finset
import Mathlib.Tactic.Linarith
import Mathlib.Data.Real.Basic
import Mathlib.Tactic.Ring

open Finset

/-- a conservative step: the total is unchanged when every neighbour map is a bijection of the cells -/
theorem total_unchanged {X J : Type*} [Fintype X] [Fintype J] (f g : X → ℝ) (c : J → ℝ) (σ : J → Equiv.Perm X)
    (h : ∀ x, g x = f x - ∑ j, c j * (f x - f (σ j x))) : ∑ x, g x = ∑ x, f x := by
  have h1 : ∀ j, ∑ x, c j * (f x - f (σ j x)) = 0 := by
    intro j
    rw [← mul_sum, sum_sub_distrib, Equiv.sum_comp (σ j) f]; simp
  calc ∑ x, g x = ∑ x, (f x - ∑ j, c j * (f x - f (σ j x))) := sum_congr rfl (fun x _ => h x)
    _ = ∑ x, f x - ∑ x, ∑ j, c j * (f x - f (σ j x)) := sum_sub_distrib _ _
    _ = ∑ x, f x - ∑ j, ∑ x, c j * (f x - f (σ j x)) := by rw [sum_comm]
    _ = ∑ x, f x := by simp [h1]

/-- no new extrema when the coefficients are non-negative and add up to at most one -/
theorem within_bounds {X J : Type*} [Fintype J] (f g : X → ℝ) (c : J → ℝ) (σ : J → X → X) (lo hi : ℝ)
    (h : ∀ x, g x = f x - ∑ j, c j * (f x - f (σ j x))) (hc : ∀ j, 0 ≤ c j) (hs : ∑ j, c j ≤ 1)
    (hb : ∀ x, lo ≤ f x ∧ f x ≤ hi) : ∀ x, lo ≤ g x ∧ g x ≤ hi := by
  intro x
  have e : g x = (1 - ∑ j, c j) * f x + ∑ j, c j * f (σ j x) := by
    rw [h x, sub_mul, one_mul, sum_mul]
    simp only [mul_sub, sum_sub_distrib]; ring
  have l : (∑ j, c j) * lo ≤ ∑ j, c j * f (σ j x) := by
    rw [sum_mul]; exact sum_le_sum (fun j _ => mul_le_mul_of_nonneg_left (hb _).1 (hc j))
  have u : ∑ j, c j * f (σ j x) ≤ (∑ j, c j) * hi := by
    rw [sum_mul]; exact sum_le_sum (fun j _ => mul_le_mul_of_nonneg_left (hb _).2 (hc j))
  have s : 0 ≤ 1 - ∑ j, c j := by linarith
  have a := mul_le_mul_of_nonneg_left (hb x).1 s
  have b := mul_le_mul_of_nonneg_left (hb x).2 s
  constructor <;> rw [e] <;> nlinarith
