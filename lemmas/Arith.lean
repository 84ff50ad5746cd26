/-
Facts about truncated division, greatest common divisor and least common multiple
which the SMT side uses as definitional facts (labels "@def", gcd_facts, lcm_facts,
lcm_div, lcm_mult, GCD facts of division in engine/vc.py).  GCD is Int.gcd, TDIV is
Int.tdiv (C's division), LCM is what lib/math_support.c documents: the signed
(a / gcd) * b, zero when an argument is zero.
-/
import Mathlib.Data.Int.GCD
import Mathlib.Tactic.Ring
import Mathlib.Tactic.Linarith
import Mathlib.Algebra.Order.Ring.Abs

namespace Arith

def G (a b : Int) : Int := (Int.gcd a b : Int)
def L (a b : Int) : Int := if a = 0 ∨ b = 0 then 0 else (a.tdiv (G a b)) * b

-- gcd_facts
theorem gcd_abs (a b : Int) : G a b = G |a| |b| := by simp [G, Int.gcd_def, Int.natAbs_abs]
theorem gcd_zero_left (a b : Int) (h : a = 0) : G a b = |b| := by simp [G, h]
theorem gcd_zero_right (a b : Int) (h : b = 0) : G a b = |a| := by simp [G, h]
theorem gcd_same (a b : Int) (h : |a| = |b|) : G a b = |a| := by
  rw [gcd_abs, ← h]; simp [G]
theorem gcd_nonneg (a b : Int) : 0 ≤ G a b := by simp [G]
theorem gcd_pos (a b : Int) (h : a ≠ 0 ∨ b ≠ 0) : 0 < G a b := by
  simp only [G]; exact_mod_cast Int.gcd_pos_iff.mpr h

-- division step of Euclid's algorithm (the remainder r of a by b)
theorem gcd_rem (a b q r : Int) (h : a = b * q + r) : G r b = G a b := by
  subst h; simp [G]
theorem gcd_rem' (a b q r : Int) (h : a = b * q + r) : G b r = G b a := by
  subst h; simp [G]

theorem gdvd_left (a b : Int) : G a b ∣ a := Int.gcd_dvd_left ..
theorem gdvd_right (a b : Int) : G a b ∣ b := Int.gcd_dvd_right ..

-- exact division
theorem tdiv_exact (l x : Int) (h : x ∣ l) : l.tdiv x * x = l := Int.tdiv_mul_cancel h

-- lcm is a multiple of both
theorem lcm_dvd_right (a b : Int) : b ∣ L a b := by
  unfold L; split
  · simp
  · exact Dvd.intro_left _ rfl
theorem lcm_dvd_left (a b : Int) : a ∣ L a b := by
  unfold L; split
  · simp
  · obtain ⟨c, hc⟩ := gdvd_right a b
    refine ⟨c, ?_⟩
    have h := tdiv_exact a _ (gdvd_left a b)
    calc a.tdiv (G a b) * b = a.tdiv (G a b) * (G a b * c) := by rw [← hc]
      _ = (a.tdiv (G a b) * G a b) * c := by ring
      _ = a * c := by rw [h]
theorem lcm_ne (a b : Int) (ha : a ≠ 0) (hb : b ≠ 0) : L a b ≠ 0 := by
  unfold L; simp only [ha, hb, or_self, if_false]
  have h := tdiv_exact a _ (gdvd_left a b)
  intro hz
  rcases mul_eq_zero.mp hz with h1 | h1
  · rw [h1] at h; simp at h; exact ha h.symm
  · exact hb h1
-- lcm_div (specs/remap.py): both non-zero
theorem lcm_div (a b : Int) (ha : a ≠ 0) (hb : b ≠ 0) :
    L a b ≠ 0 ∧ (L a b).tdiv a * a = L a b ∧ (L a b).tdiv b * b = L a b :=
  ⟨lcm_ne a b ha hb, tdiv_exact _ _ (lcm_dvd_left a b), tdiv_exact _ _ (lcm_dvd_right a b)⟩

theorem lcm_pos (x y : Int) (hx : 0 < x) (hy : 0 < y) : 0 < L x y := by
  have h0 := lcm_ne x y hx.ne' hy.ne'
  have : 0 ≤ L x y := by
    unfold L; split
    · exact le_refl 0
    · exact mul_nonneg (Int.tdiv_nonneg hx.le (gcd_nonneg x y)) hy.le
  omega
theorem quot_pos (l x : Int) (hx : 0 < x) (hl : 0 < l) (h : x ∣ l) : 0 < l.tdiv x := by
  have e := tdiv_exact l x h
  by_contra hn
  have : l.tdiv x * x ≤ 0 := mul_nonpos_of_nonpos_of_nonneg (by omega) hx.le
  omega
-- lcm_div (specs/elim.py), lcm_mult (specs/sums.py): both positive
theorem lcm_div_pos (x y : Int) (hx : 0 < x) (hy : 0 < y) :
    let l := L x y
    0 < l ∧ l.tdiv x * x = l ∧ l.tdiv y * y = l ∧ 0 < l.tdiv x ∧ 0 < l.tdiv y ∧
    (-l).tdiv x * x = -l ∧ l.tdiv (-x) * x = -l ∧ (-l).tdiv (-x) * x = l ∧
    (-l).tdiv y * y = -l ∧ l.tdiv (-y) * y = -l ∧ (-l).tdiv (-y) * y = l ∧ 0 < (-l).tdiv (-y) := by
  intro l
  have hl : 0 < l := lcm_pos x y hx hy
  have dx : x ∣ l := lcm_dvd_left x y
  have dy : y ∣ l := lcm_dvd_right x y
  have ex := tdiv_exact l x dx
  have ey := tdiv_exact l y dy
  refine ⟨hl, ex, ey, quot_pos l x hx hl dx, quot_pos l y hy hl dy, ?_, ?_, ?_, ?_, ?_, ?_, ?_⟩
  all_goals simp only [Int.neg_tdiv, Int.tdiv_neg, neg_neg, Int.neg_mul]
  all_goals first | assumption | (rw [ex]) | (rw [ey]) | exact quot_pos l y hy hl dy

theorem lcm_eq (x y : Int) (hx : 0 < x) (hy : 0 < y) : L x y = Int.lcm x y := by
  have h : G x y * (Int.lcm x y : Int) = x * y := by
    have := Int.gcd_mul_lcm x y
    have h2 : ((Int.gcd x y * Int.lcm x y : Nat) : Int) = ((x.natAbs * y.natAbs : Nat) : Int) := by
      rw [this]
    simp only [Nat.cast_mul] at h2
    rw [G, h2, Int.natAbs_of_nonneg hx.le, Int.natAbs_of_nonneg hy.le]
  have hg := gcd_pos x y (Or.inl hx.ne')
  have e := tdiv_exact x _ (gdvd_left x y)
  unfold L; simp only [hx.ne', hy.ne', or_self, if_false]
  have : G x y * (x.tdiv (G x y) * y) = G x y * (Int.lcm x y : Int) := by
    rw [h]; calc _ = (x.tdiv (G x y) * G x y) * y := by ring
      _ = x * y := by rw [e]
  exact mul_left_cancel₀ hg.ne' this
theorem lcm_comm (x y : Int) (hx : 0 < x) (hy : 0 < y) : L x y = L y x := by
  rw [lcm_eq x y hx hy, lcm_eq y x hy hx, Int.lcm_comm]

-- access functions (specs/remap.py, ac_inv): the running lcm keeps the old divisors
theorem lcm_keeps (c l d : Int) (h : c ∣ l) : c ∣ L l d := dvd_trans h (lcm_dvd_left l d)

-- parallel rows: proportionality to a common non-zero pivot makes all minors vanish
theorem minors (x0 y0 xj yj xk yk : Int) (hx : x0 ≠ 0) (hj : x0 * yj = y0 * xj)
    (hk : x0 * yk = y0 * xk) : xj * yk = yj * xk := by
  have : x0 * (xj * yk) = x0 * (yj * xk) := by
    calc x0 * (xj * yk) = xj * (x0 * yk) := by ring
      _ = xj * (y0 * xk) := by rw [hk]
      _ = (y0 * xj) * xk := by ring
      _ = (x0 * yj) * xk := by rw [hj]
      _ = x0 * (yj * xk) := by ring
  exact mul_left_cancel₀ hx this

end Arith
