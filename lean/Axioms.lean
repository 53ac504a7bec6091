/- The nine axioms of contracts/math.rs, each proved for the real functions of Mathlib
   (cosr = Real.cos, sinr = Real.sin, sqrtr = Real.sqrt, pi() = Real.pi).
   Verus's `real` is the ordered field of SMT-LIB reals, interpreted here as ℝ. -/
import Mathlib.Analysis.SpecialFunctions.Trigonometric.Basic

theorem ax_pi_pos : (Real.pi : ℝ) > 0 := Real.pi_pos
theorem ax_cos_add (a b : ℝ) : Real.cos (a + b) = Real.cos a * Real.cos b - Real.sin a * Real.sin b := Real.cos_add a b
theorem ax_sin_add (a b : ℝ) : Real.sin (a + b) = Real.sin a * Real.cos b + Real.cos a * Real.sin b := Real.sin_add a b
theorem ax_cos_neg (a : ℝ) : Real.cos (-a) = Real.cos a := Real.cos_neg a
theorem ax_sin_neg (a : ℝ) : Real.sin (-a) = -Real.sin a := Real.sin_neg a
theorem ax_zero : Real.cos 0 = 1 ∧ Real.sin 0 = 0 := ⟨Real.cos_zero, Real.sin_zero⟩
theorem ax_half_pi : Real.cos (Real.pi / 2) = 0 ∧ Real.sin (Real.pi / 2) = 1 := ⟨Real.cos_pi_div_two, Real.sin_pi_div_two⟩
theorem ax_sin_pos (a : ℝ) (h0 : 0 < a) (h1 : a < Real.pi) : Real.sin a > 0 := Real.sin_pos_of_pos_of_lt_pi h0 h1
theorem ax_sqrt (a : ℝ) (h : a ≥ 0) : Real.sqrt a ≥ 0 ∧ Real.sqrt a * Real.sqrt a = a := ⟨Real.sqrt_nonneg a, Real.mul_self_sqrt h⟩
