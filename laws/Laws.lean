/-
The laws of the reals the verification condition generator instantiates (mirvc/sem.py: `laws`, `ln_laws`, `trig_laws`, `on_open`;
mirvc/contracts.py: `bpart_facts`, `gtrig_facts`, `gred_facts`, `Deriv`; mirvc/theory.py: folds over sequences), proved in Lean
with pw := Real.rpow, isZ e := e is an integer.  Run: lean laws/Laws.lean (no output, exit 0).
-/
import Mathlib.Analysis.SpecialFunctions.Pow.Real
import Mathlib.Analysis.SpecialFunctions.Pow.Deriv
import Mathlib.Analysis.SpecialFunctions.Trigonometric.Deriv
import Mathlib.Analysis.SpecialFunctions.Trigonometric.InverseDeriv
import Mathlib.Analysis.SpecialFunctions.Trigonometric.ArctanDeriv
import Mathlib.Analysis.SpecialFunctions.Log.Base
import Mathlib.Analysis.SpecialFunctions.Log.Deriv
import Mathlib.Analysis.Complex.ExponentialBounds
import Mathlib.Analysis.Real.Pi.Bounds
import Mathlib.Tactic

namespace Laws
open Real

noncomputable def pw (b e : ℝ) : ℝ := b ^ e
def isZ (e : ℝ) : Prop := ∃ n : ℤ, (n : ℝ) = e
def pdef (b e : ℝ) : Prop := 0 < b ∨ (b ≠ 0 ∧ isZ e) ∨ (b = 0 ∧ 0 < e)

/-! ### integers -/
theorem isZ_int (n : ℤ) : isZ n := ⟨n, rfl⟩
theorem isZ_consts {e : ℝ} (h : e = 0 ∨ e = 1 ∨ e = -1 ∨ e = 2) : isZ e := by
  rcases h with h | h | h | h <;> subst h
  · exact ⟨0, by norm_num⟩
  · exact ⟨1, by norm_num⟩
  · exact ⟨-1, by norm_num⟩
  · exact ⟨2, by norm_num⟩
theorem isZ_add {a b : ℝ} : isZ a → isZ b → isZ (a + b) := by
  rintro ⟨m, rfl⟩ ⟨n, rfl⟩; exact ⟨m + n, by push_cast; ring⟩
theorem isZ_mul {a b : ℝ} : isZ a → isZ b → isZ (a * b) := by
  rintro ⟨m, rfl⟩ ⟨n, rfl⟩; exact ⟨m * n, by push_cast; ring⟩
theorem isZ_neg {a : ℝ} : isZ a → isZ (-a) := by
  rintro ⟨m, rfl⟩; exact ⟨-m, by push_cast; ring⟩
/-- integer polynomials in integers: sums of products with integer coefficients -/
theorem isZ_poly (l : List (ℤ × List ℝ)) (h : ∀ m ∈ l, ∀ x ∈ m.2, isZ x) :
    isZ ((l.map fun m => (m.1 : ℝ) * m.2.prod).sum) := by
  induction l with
  | nil => exact ⟨0, by simp⟩
  | cons m l ih =>
    simp only [List.map_cons, List.sum_cons]
    refine isZ_add (isZ_mul (isZ_int _) ?_) (ih fun m' hm => h m' (List.mem_cons_of_mem _ hm))
    have hm := h m (List.mem_cons_self ..)
    generalize m.2 = xs at hm
    induction xs with
    | nil => exact ⟨1, by simp⟩
    | cons x xs ih2 =>
      rw [List.prod_cons]
      exact isZ_mul (hm x (List.mem_cons_self ..)) (ih2 fun y hy => hm y (List.mem_cons_of_mem _ hy))

/-! ### powers -/
theorem pw_zero (b : ℝ) : pw b 0 = 1 := rpow_zero b
theorem pw_one (b : ℝ) : pw b 1 = b := rpow_one b
theorem one_pw (e : ℝ) : pw 1 e = 1 := one_rpow e
theorem pw_pos {b e : ℝ} : 0 < b → 0 < pw b e := fun h => rpow_pos_of_pos h e
theorem pw_ne {b e : ℝ} (h : b ≠ 0) (z : isZ e) : pw b e ≠ 0 := by
  obtain ⟨n, rfl⟩ := z
  rw [pw, rpow_intCast]; exact zpow_ne_zero n h
theorem zero_pw {e : ℝ} (h : 0 < e) : pw 0 e = 0 := zero_rpow h.ne'
theorem pw_neg_one {b : ℝ} (h : b ≠ 0) : pw b (-1) * b = 1 := by
  rw [pw, rpow_neg_one]; exact inv_mul_cancel₀ h
theorem pw_two (b : ℝ) : pw b 2 = b * b := by rw [pw, rpow_two]; ring
theorem pw_mul {e : ℝ} (l : List ℝ) (h : isZ e ∨ ∀ x ∈ l, 0 ≤ x) : pw l.prod e = (l.map fun x => pw x e).prod := by
  induction l with
  | nil => simp [one_pw]
  | cons x l ih =>
    rw [List.prod_cons, List.map_cons, List.prod_cons]
    rcases h with z | h
    · rw [← ih (Or.inl z)]
      obtain ⟨n, rfl⟩ := z
      simp only [pw, rpow_intCast]; exact mul_zpow x l.prod n
    · have hl : ∀ y ∈ l, 0 ≤ y := fun y hy => h y (List.mem_cons_of_mem _ hy)
      rw [← ih (Or.inr hl)]
      exact mul_rpow (h x (List.mem_cons_self ..)) (List.prod_nonneg hl)
theorem pw_pw {x f e : ℝ} (hf : pdef x f) (he : pdef (pw x f) e) (h : 0 ≤ x ∨ isZ e) : pw (pw x f) e = pw x (f * e) := by
  by_cases hx : 0 ≤ x
  · exact (rpow_mul hx f e).symm
  · have z : isZ e := h.resolve_left hx
    have zf : isZ f := by
      rcases hf with p | p | p
      · exact absurd p.le hx
      · exact p.2
      · exact absurd p.1.ge hx
    obtain ⟨n, rfl⟩ := z
    obtain ⟨m, rfl⟩ := zf
    have : ((m : ℝ) * (n : ℝ)) = ((m * n : ℤ) : ℝ) := by push_cast; ring
    rw [this]; simp only [pw, rpow_intCast]; rw [zpow_mul]
theorem pw_add {b f g : ℝ} (hf : pdef b f) (hg : pdef b g) : pdef b (f + g) ∧ pw b (f + g) = pw b f * pw b g := by
  rcases lt_trichotomy b 0 with n | z | p
  · have zf : isZ f := by
      rcases hf with q | q | q
      · exact absurd q n.not_gt
      · exact q.2
      · exact absurd q.1 n.ne
    have zg : isZ g := by
      rcases hg with q | q | q
      · exact absurd q n.not_gt
      · exact q.2
      · exact absurd q.1 n.ne
    refine ⟨Or.inr (Or.inl ⟨n.ne, isZ_add zf zg⟩), ?_⟩
    obtain ⟨k, rfl⟩ := zf
    obtain ⟨m, rfl⟩ := zg
    have : ((k : ℝ) + (m : ℝ)) = ((k + m : ℤ) : ℝ) := by push_cast; ring
    rw [this]; simp only [pw, rpow_intCast]; exact zpow_add₀ n.ne k m
  · subst z
    have pf : 0 < f := by
      rcases hf with q | q | q
      · exact absurd q (lt_irrefl _)
      · exact absurd rfl q.1
      · exact q.2
    have pg : 0 < g := by
      rcases hg with q | q | q
      · exact absurd q (lt_irrefl _)
      · exact absurd rfl q.1
      · exact q.2
    exact ⟨Or.inr (Or.inr ⟨rfl, by linarith⟩), by rw [zero_pw pf, zero_pw (by linarith)]; ring⟩
  · exact ⟨Or.inl p, rpow_add p f g⟩
/-- sums of any number of exponents, as a list with at least one -/
theorem pw_sum {b : ℝ} (f : ℝ) (l : List ℝ) (hf : pdef b f) (h : ∀ g ∈ l, pdef b g) :
    pdef b (f + l.sum) ∧ pw b (f + l.sum) = pw b f * (l.map fun g => pw b g).prod := by
  induction l generalizing f with
  | nil => simpa using hf
  | cons g l ih =>
    have hg := pw_add hf (h g (List.mem_cons_self ..))
    have := ih (f + g) hg.1 fun k hk => h k (List.mem_cons_of_mem _ hk)
    rw [List.sum_cons, List.map_cons, List.prod_cons, ← add_assoc, ← mul_assoc, ← hg.2]
    exact this
theorem pw_neg {b e : ℝ} (hb : b ≠ 0) (h : 0 < b ∨ isZ e) : pw b (-e) * pw b e = 1 := by
  have d : ∀ e, (0 < b ∨ isZ e) → pdef b e := fun e h => h.elim Or.inl fun z => Or.inr (Or.inl ⟨hb, z⟩)
  have := (pw_add (d (-e) (h.imp id isZ_neg)) (d e h)).2
  rw [← this, neg_add_cancel, pw_zero]

/-! ### constants and logarithms (log of the library: base b of x) -/
theorem e_bounds : (2.7 : ℝ) < exp 1 ∧ exp 1 < 2.8 := ⟨by linarith [exp_one_gt_d9], by linarith [exp_one_lt_d9]⟩
theorem pi_bounds : (3.1 : ℝ) < π ∧ π < 3.2 := ⟨by linarith [pi_gt_d2], by linarith [pi_lt_d2]⟩
theorem ln_one : log 1 = 0 := log_one
theorem ln_e : log (exp 1) = 1 := log_exp 1
theorem ln_ne {x : ℝ} (h : 0 < x) (n : x ≠ 1) : log x ≠ 0 := log_ne_zero_of_pos_of_ne_one h n
theorem ln_prod (l : List ℝ) (h : ∀ x ∈ l, 0 < x) : log l.prod = (l.map log).sum := by
  induction l with
  | nil => simp
  | cons x l ih =>
    have hl : ∀ y ∈ l, 0 < y := fun y hy => h y (List.mem_cons_of_mem _ hy)
    rw [List.prod_cons, log_mul (h x (List.mem_cons_self ..)).ne' (List.prod_pos hl).ne', ih hl]
    simp
theorem ln_pw {b : ℝ} (e : ℝ) (h : 0 < b) : log (pw b e) = e * log b := log_rpow h e
theorem logb_ln {b x : ℝ} (h : 0 < b) (n : b ≠ 1) : logb b x * log b = log x := by
  rw [logb]; exact div_mul_cancel₀ _ (ln_ne h n)
theorem logb_self' {b : ℝ} (h : 0 < b) (n : b ≠ 1) : logb b b = 1 := by
  rw [logb]; exact div_self (ln_ne h n)
theorem logb_e (x : ℝ) : logb (exp 1) x = log x := by rw [logb, log_exp, div_one]

/-! ### trigonometry (sec, cot, csc are 1/cos, cos/sin, 1/sin) -/
noncomputable def sec (x : ℝ) := 1 / cos x
noncomputable def cot (x : ℝ) := cos x / sin x
noncomputable def csc (x : ℝ) := 1 / sin x
theorem tan_def {x : ℝ} (h : cos x ≠ 0) : tan x * cos x = sin x := tan_mul_cos h
theorem sec_def {x : ℝ} (h : cos x ≠ 0) : sec x * cos x = 1 := by rw [sec]; field_simp
theorem cot_def {x : ℝ} (h : sin x ≠ 0) : cot x * sin x = cos x := by rw [cot]; field_simp
theorem csc_def {x : ℝ} (h : sin x ≠ 0) : csc x * sin x = 1 := by rw [csc]; field_simp
theorem trig_zero : sin 0 = 0 ∧ cos 0 = 1 := ⟨sin_zero, cos_zero⟩
theorem pyth (x : ℝ) : sin x * sin x + cos x * cos x = 1 := by nlinarith [sin_sq_add_cos_sq x]
theorem trig_neg (x : ℝ) : sin (-x) = -sin x ∧ cos (-x) = cos x := ⟨sin_neg x, cos_neg x⟩
theorem angle_sum (u w : ℝ) : sin (u + w) = sin u * cos w + cos u * sin w ∧ cos (u + w) = cos u * cos w - sin u * sin w :=
  ⟨sin_add u w, cos_add u w⟩

/-! ### binomial theorem: partial sums bpart -/
noncomputable def bpart (a b : ℝ) (n k : ℕ) : ℝ := ∑ j ∈ Finset.Ico 1 k, (n.choose j : ℝ) * a ^ j * b ^ (n - j)
theorem bpart_one (a b : ℝ) (n : ℕ) : bpart a b n 1 = 0 := by simp [bpart]
theorem bpart_step (a b : ℝ) (n k : ℕ) (h : 1 ≤ k) : bpart a b n (k + 1) = bpart a b n k + (n.choose k : ℝ) * a ^ k * b ^ (n - k) := by
  rw [bpart, Finset.sum_Ico_succ_top h, ← bpart]
theorem bpart_all (a b : ℝ) (n : ℕ) (h : 1 ≤ n) : (a + b) ^ n = a ^ n + bpart a b n n + b ^ n := by
  have : (a + b) ^ n = ∑ j ∈ Finset.range (n + 1), (n.choose j : ℝ) * a ^ j * b ^ (n - j) := by
    rw [add_pow]; exact Finset.sum_congr rfl fun j _ => by ring
  rw [this, Finset.sum_range_succ, Finset.range_eq_Ico, Finset.sum_eq_sum_Ico_succ_bot (by omega), bpart]
  simp
  ring
/-- natural exponents are real exponents -/
theorem pw_nat (b : ℝ) (n : ℕ) : pw b n = b ^ n := rpow_natCast b n
theorem pw_sub_nat (b : ℝ) (n k : ℕ) (h : k ≤ n) : pw b ((n : ℝ) - k) = b ^ (n - k) := by
  rw [← pw_nat, Nat.cast_sub h]

/-! ### multiple angles: partial sums of de Moivre's formula -/
noncomputable def gterm (o : ℕ) (c s : ℝ) (n i : ℕ) : ℝ :=
  if i % 4 = o then (n.choose i : ℝ) * c ^ (n - i) * s ^ i else if i % 4 = o + 2 then -((n.choose i : ℝ) * c ^ (n - i) * s ^ i) else 0
noncomputable def gtrig (o : ℕ) (c s : ℝ) (n k : ℕ) : ℝ := ∑ i ∈ Finset.range k, gterm o c s n i
theorem gtrig_zero (o c s n) : gtrig o c s n 0 = 0 := by simp [gtrig]
theorem gtrig_step (o c s n i) : gtrig o c s n (i + 1) = gtrig o c s n i + gterm o c s n i := Finset.sum_range_succ _ _
open Complex in
theorem moivre (x : ℝ) (n : ℕ) : gtrig 0 (Real.cos x) (Real.sin x) n (n + 1) = Real.cos (n * x) ∧
    gtrig 1 (Real.cos x) (Real.sin x) n (n + 1) = Real.sin (n * x) := by
  have key : ((Real.cos x : ℂ) + Real.sin x * I) ^ n = Real.cos (n * x) + Real.sin (n * x) * I := by
    have := Complex.cos_add_sin_mul_I_pow n (x : ℂ)
    push_cast at this ⊢
    exact this
  have expand : ((Real.cos x : ℂ) + Real.sin x * I) ^ n =
      (gtrig 0 (Real.cos x) (Real.sin x) n (n + 1) : ℝ) + (gtrig 1 (Real.cos x) (Real.sin x) n (n + 1) : ℝ) * I := by
    rw [add_comm, add_pow]
    simp only [gtrig, Complex.ofReal_sum, Finset.sum_mul, ← Finset.sum_add_distrib]
    refine Finset.sum_congr rfl fun i _ => ?_
    have hi : I ^ i = I ^ (i % 4) := by
      conv_lhs => rw [← Nat.div_add_mod i 4, pow_add, pow_mul, I_pow_four, one_pow, one_mul]
    rw [mul_pow, hi]
    have h4 : i % 4 < 4 := Nat.mod_lt _ (by norm_num)
    simp only [gterm]
    interval_cases hm : i % 4 <;> simp [pow_succ] <;> ring
  rw [expand] at key
  have parts : ∀ a b c d : ℝ, (a : ℂ) + b * I = c + d * I → a = c ∧ b = d := by
    intro a b c d h
    have re := congrArg Complex.re h
    have im := congrArg Complex.im h
    simp at re im
    exact ⟨re, im⟩
  exact parts _ _ _ _ key

/-! ### power reduction -/
noncomputable def cterm (x : ℝ) (n j : ℕ) : ℝ := (n.choose j : ℝ) * cos (((n : ℝ) - 2 * j) * x)
noncomputable def sterm (x : ℝ) (n j : ℕ) : ℝ := (n.choose j : ℝ) * sin (((n : ℝ) - 2 * j) * x)
noncomputable def gcos0 (x : ℝ) (n k : ℕ) : ℝ := ∑ j ∈ Finset.range k, cterm x n j
noncomputable def gcos1 (x : ℝ) (n k : ℕ) : ℝ := ∑ j ∈ Finset.range k, (-1) ^ j * cterm x n j
noncomputable def gsin1 (x : ℝ) (n k : ℕ) : ℝ := ∑ j ∈ Finset.range k, (-1) ^ j * sterm x n j
theorem gcos0_step (x n j) : gcos0 x n (j + 1) = gcos0 x n j + cterm x n j := Finset.sum_range_succ _ _
theorem gcos1_step (x n j) : gcos1 x n (j + 1) = gcos1 x n j + (-1) ^ j * cterm x n j := Finset.sum_range_succ _ _
theorem gsin1_step (x n j) : gsin1 x n (j + 1) = gsin1 x n j + (-1) ^ j * sterm x n j := Finset.sum_range_succ _ _
theorem neg_pow_parity (j : ℕ) (w : ℝ) : (-1) ^ j * w = if j % 2 = 0 then w else -w := by
  rcases Nat.even_or_odd j with h | h
  · rw [h.neg_one_pow, if_pos (Nat.even_iff.mp h)]; ring
  · rw [h.neg_one_pow, if_neg (by have := Nat.odd_iff.mp h; omega)]; ring
theorem ipow_step (n : ℕ) (h : 1 ≤ n) : (2 : ℤ) ^ n = 2 * 2 ^ (n - 1) ∧ (1 : ℤ) ≤ 2 ^ (n - 1) := by
  obtain ⟨m, rfl⟩ : ∃ m, n = m + 1 := ⟨n - 1, by omega⟩
  exact ⟨by simp [pow_succ]; ring, by simpa using one_le_pow₀ (n := m) (by norm_num : (1 : ℤ) ≤ 2)⟩
open Complex in
theorem cos_full (x : ℝ) (n : ℕ) : Real.cos x ^ n * 2 ^ n = gcos0 x n (n + 1) := by
  have h : ((Real.cos x ^ n * 2 ^ n : ℝ) : ℂ) = ∑ j ∈ Finset.range (n + 1), (n.choose j : ℂ) * cexp (-(((n : ℂ) - 2 * j) * x) * I) := by
    have : ((Real.cos x ^ n * 2 ^ n : ℝ) : ℂ) = (cexp (x * I) + cexp (-x * I)) ^ n := by
      rw [← Complex.two_cos, mul_pow]; push_cast; ring
    rw [this, add_pow]
    refine Finset.sum_congr rfl fun j hj => ?_
    have hj : j ≤ n := by have := Finset.mem_range.mp hj; omega
    rw [← Complex.exp_nat_mul, ← Complex.exp_nat_mul, ← Complex.exp_add, mul_comm, Nat.cast_sub hj]
    congr 2
    ring
  have re := congrArg Complex.re h
  rw [Complex.ofReal_re] at re
  rw [re, Complex.re_sum]
  refine Finset.sum_congr rfl fun j _ => ?_
  have : (-(((n : ℂ) - 2 * j) * x) * I) = ((-(((n : ℝ) - 2 * j) * x) : ℝ) : ℂ) * I := by push_cast; ring
  rw [this, ← Complex.ofReal_natCast, Complex.re_ofReal_mul, Complex.exp_ofReal_mul_I_re, Real.cos_neg]
  rfl
theorem cterm_symm (x : ℝ) {n i j : ℕ} (h : i + j = n) : cterm x n i = cterm x n j := by
  subst h
  rw [cterm, cterm, Nat.choose_symm_add]
  have : (((i + j : ℕ) : ℝ) - 2 * i) * x = -((((i + j : ℕ) : ℝ) - 2 * j) * x) := by push_cast; ring
  rw [this, cos_neg]
theorem cos_even (x : ℝ) (h : ℕ) : cos x ^ (2 * h) * 2 ^ (2 * h) = ((2 * h).choose h : ℝ) + 2 * gcos0 x (2 * h) h := by
  rw [cos_full, gcos0, show 2 * h + 1 = (h + 1) + h by ring, Finset.sum_range_add, Finset.sum_range_succ]
  have : ∑ j ∈ Finset.range h, cterm x (2 * h) (h + 1 + j) = gcos0 x (2 * h) h := by
    rw [gcos0, ← Finset.sum_range_reflect]
    refine Finset.sum_congr rfl fun j hj => cterm_symm x ?_
    have := Finset.mem_range.mp hj
    omega
  rw [this]
  have m : cterm x (2 * h) h = ((2 * h).choose h : ℝ) := by
    rw [cterm]; push_cast; simp
  rw [m, gcos0]; ring
theorem cos_odd (x : ℝ) (h : ℕ) : cos x ^ (2 * h + 1) * 2 ^ (2 * h) = gcos0 x (2 * h + 1) (h + 1) := by
  have f := cos_full x (2 * h + 1)
  rw [gcos0, show 2 * h + 1 + 1 = (h + 1) + (h + 1) by ring, Finset.sum_range_add] at f
  have : ∑ j ∈ Finset.range (h + 1), cterm x (2 * h + 1) (h + 1 + j) = gcos0 x (2 * h + 1) (h + 1) := by
    rw [gcos0, ← Finset.sum_range_reflect]
    refine Finset.sum_congr rfl fun j hj => cterm_symm x ?_
    have := Finset.mem_range.mp hj
    omega
  rw [this, ← gcos0, pow_succ (2 : ℝ)] at f
  linarith
theorem cos_shift (k : ℤ) (y : ℝ) : cos (k * π - y) = (-1) ^ k.natAbs * cos y := by
  have e : ((-1 : ℝ)) ^ k.natAbs = (-1 : ℝ) ^ k := by
    rcases Int.natAbs_eq k with h | h
    · conv_rhs => rw [h, zpow_natCast]
    · conv_rhs => rw [h, zpow_neg, zpow_natCast]
      rcases neg_one_pow_eq_or ℝ k.natAbs with q | q <;> rw [q] <;> norm_num
  rw [e, Real.cos_sub, Real.cos_int_mul_pi, Real.sin_int_mul_pi]; ring
theorem neg_pow_abs (h j : ℕ) : ((-1 : ℝ)) ^ ((h : ℤ) - j).natAbs = (-1) ^ h * (-1) ^ j := by
  rw [← pow_add]
  rcases Nat.even_or_odd (h + j) with e | e
  · rw [e.neg_one_pow]; exact Even.neg_one_pow (by rw [Nat.even_iff] at *; omega)
  · rw [e.neg_one_pow]; exact Odd.neg_one_pow (by rw [Nat.odd_iff] at *; omega)
theorem sin_even (x : ℝ) (h : ℕ) : sin x ^ (2 * h) * 2 ^ (2 * h) = ((2 * h).choose h : ℝ) + 2 * ((-1) ^ h * gcos1 x (2 * h) h) := by
  have f := cos_even (π / 2 - x) h
  rw [cos_pi_div_two_sub] at f
  rw [f, gcos0, gcos1, Finset.mul_sum (Finset.range h) _ ((-1 : ℝ) ^ h)]
  congr 2
  refine Finset.sum_congr rfl fun j _ => ?_
  rw [cterm, cterm]
  have : (((2 * h : ℕ) : ℝ) - 2 * j) * (π / 2 - x) = (((h : ℤ) - j : ℤ) : ℝ) * π - (((2 * h : ℕ) : ℝ) - 2 * j) * x := by push_cast; ring
  rw [this, cos_shift, neg_pow_abs]; ring
theorem sin_odd (x : ℝ) (h : ℕ) : sin x ^ (2 * h + 1) * 2 ^ (2 * h) = (-1) ^ h * gsin1 x (2 * h + 1) (h + 1) := by
  have f := cos_odd (π / 2 - x) h
  rw [cos_pi_div_two_sub] at f
  rw [f, gcos0, gsin1, Finset.mul_sum]
  refine Finset.sum_congr rfl fun j _ => ?_
  rw [cterm, sterm]
  have : (((2 * h + 1 : ℕ) : ℝ) - 2 * j) * (π / 2 - x) = (((h : ℤ) - j : ℤ) : ℝ) * π - ((((2 * h + 1 : ℕ) : ℝ) - 2 * j) * x - π / 2) := by push_cast; ring
  rw [this, cos_shift, neg_pow_abs, cos_sub_pi_div_two]; ring

/-! ### the rules of differentiation: where `sd` holds, D is the derivative -/
section Deriv
variable {f g : ℝ → ℝ} {f' g' x : ℝ}
theorem d_const (c : ℝ) : HasDerivAt (fun _ => c) 0 x := hasDerivAt_const x c
theorem d_var : HasDerivAt (fun t : ℝ => t) 1 x := hasDerivAt_id x
theorem d_sum (l : List ((ℝ → ℝ) × ℝ)) (h : ∀ p ∈ l, HasDerivAt p.1 p.2 x) :
    HasDerivAt (fun t => (l.map fun p => p.1 t).sum) (l.map Prod.snd).sum x := by
  induction l with
  | nil => simpa using hasDerivAt_const x (0 : ℝ)
  | cons p l ih =>
    simp only [List.map_cons, List.sum_cons]
    exact (h p (List.mem_cons_self ..)).add (ih fun q hq => h q (List.mem_cons_of_mem _ hq))
/-- DP: first factor and the product of the rest -/
theorem d_prod (hf : HasDerivAt f f' x) (hg : HasDerivAt g g' x) : HasDerivAt (fun t => f t * g t) (f' * g x + f x * g') x := hf.mul hg
theorem d_pow_pos (hf : HasDerivAt f f' x) (hg : HasDerivAt g g' x) (h : 0 < f x) :
    HasDerivAt (fun t => pw (f t) (g t)) (g x * pw (f x) (g x - 1) * f' + g' * pw (f x) (g x) * log (f x)) x := by
  exact (hf.rpow hg h).congr_deriv (by simp only [pw]; ring)
theorem d_pow_int (hf : HasDerivAt f f' x) (e : ℝ) (_ : isZ e) (h : f x ≠ 0 ∨ 2 ≤ e) :
    HasDerivAt (fun t => pw (f t) e) (e * pw (f x) (e - 1) * f') x := by
  have h' : f x ≠ 0 ∨ 1 ≤ e := h.imp id fun h => by linarith
  exact (hf.rpow_const h').congr_deriv (by simp only [pw]; ring)
theorem d_sin (hf : HasDerivAt f f' x) : HasDerivAt (fun t => sin (f t)) (f' * cos (f x)) x := hf.sin.congr_deriv (by ring)
theorem d_cos (hf : HasDerivAt f f' x) : HasDerivAt (fun t => cos (f t)) (-f' * sin (f x)) x := hf.cos.congr_deriv (by ring)
theorem d_tan (hf : HasDerivAt f f' x) (h : cos (f x) ≠ 0) : HasDerivAt (fun t => tan (f t)) (f' * sec (f x) * sec (f x)) x := by
  exact ((Real.hasDerivAt_tan h).comp x hf).congr_deriv (by rw [sec]; field_simp)
theorem d_sec (hf : HasDerivAt f f' x) (h : cos (f x) ≠ 0) : HasDerivAt (fun t => sec (f t)) (f' * tan (f x) * sec (f x)) x := by
  exact ((hasDerivAt_const x (1 : ℝ)).div hf.cos h).congr_deriv (by rw [sec, tan_eq_sin_div_cos]; field_simp; ring)
theorem d_cot (hf : HasDerivAt f f' x) (h : sin (f x) ≠ 0) : HasDerivAt (fun t => cot (f t)) (-f' * csc (f x) * csc (f x)) x := by
  refine (hf.cos.div hf.sin h).congr_deriv ?_
  have := sin_sq_add_cos_sq (f x)
  rw [csc]; field_simp
  linear_combination (-f') * this
theorem d_csc (hf : HasDerivAt f f' x) (h : sin (f x) ≠ 0) : HasDerivAt (fun t => csc (f t)) (-f' * cot (f x) * csc (f x)) x := by
  exact ((hasDerivAt_const x (1 : ℝ)).div hf.sin h).congr_deriv (by rw [csc, cot]; field_simp; ring)
theorem pw_neg_half {u : ℝ} (h : 0 < u) : pw u (-1 / 2) = 1 / √u := by
  rw [pw, sqrt_eq_rpow, show (-1 / 2 : ℝ) = -(1 / 2) by ring, rpow_neg h.le, one_div (u ^ (1 / 2 : ℝ))]
theorem d_arcsin (hf : HasDerivAt f f' x) (l : -1 < f x) (r : f x < 1) :
    HasDerivAt (fun t => arcsin (f t)) (f' * pw (1 - f x * f x) (-1 / 2)) x := by
  refine ((Real.hasDerivAt_arcsin (ne_of_gt l) (ne_of_lt r)).comp x hf).congr_deriv ?_
  rw [pw_neg_half (by nlinarith), ← pow_two]; ring
theorem d_arccos (hf : HasDerivAt f f' x) (l : -1 < f x) (r : f x < 1) :
    HasDerivAt (fun t => arccos (f t)) (-f' * pw (1 - f x * f x) (-1 / 2)) x := by
  refine ((Real.hasDerivAt_arccos (ne_of_gt l) (ne_of_lt r)).comp x hf).congr_deriv ?_
  rw [pw_neg_half (by nlinarith), ← pow_two]; ring
theorem d_arctan (hf : HasDerivAt f f' x) : ∃ w, w * (1 + f x * f x) = f' ∧ HasDerivAt (fun t => arctan (f t)) w x := by
  refine ⟨1 / (1 + f x ^ 2) * f', ?_, (Real.hasDerivAt_arctan _).comp x hf⟩
  have : (1 + f x ^ 2) ≠ 0 := by positivity
  field_simp
/-- arccot y = pi/2 - arctan y -/
theorem d_arccot (hf : HasDerivAt f f' x) : ∃ w, w * (1 + f x * f x) = -f' ∧ HasDerivAt (fun t => π / 2 - arctan (f t)) w x := by
  obtain ⟨w, h, d⟩ := d_arctan hf
  exact ⟨-w, by linarith, by simpa using d.const_sub (π / 2)⟩
/-- arccsc y = arcsin (1/y) -/
theorem d_arccsc (hf : HasDerivAt f f' x) (h : 1 < f x ∨ f x < -1) :
    ∃ w, (∀ z, z * f x * f x = f x * f x - 1 → w * f x * f x * pw z (1 / 2) = -f') ∧ HasDerivAt (fun t => arcsin (1 / f t)) w x := by
  have n : f x ≠ 0 := by rcases h with h | h <;> linarith
  have q : 1 < f x ^ 2 := by rcases h with h | h <;> nlinarith
  have i : (1 / f x) ^ 2 < 1 := by rw [one_div, inv_pow]; exact inv_lt_one_of_one_lt₀ q
  have b := abs_lt.mp ((sq_lt_one_iff_abs_lt_one _).mp i)
  have d := (Real.hasDerivAt_arcsin (ne_of_gt b.1) (ne_of_lt b.2)).comp x ((hasDerivAt_const x (1 : ℝ)).div hf n)
  refine ⟨_, ?_, d⟩
  intro z hz
  have zz : z = 1 - (1 / f x) ^ 2 := by
    field_simp; linarith
  have s : √(1 - (1 / f x) ^ 2) ≠ 0 := (sqrt_pos.mpr (by linarith)).ne'
  have : pw z (1 / 2) = √(1 - (1 / f x) ^ 2) := by rw [zz, sqrt_eq_rpow]; rfl
  rw [this]
  generalize √(1 - (1 / f x) ^ 2) = r at s
  field_simp
  ring
theorem d_logb (hf : HasDerivAt f f' x) {b : ℝ} (h : 0 < f x) (hb : 0 < b) (n : b ≠ 1) :
    ∃ w, w * f x * log b = f' ∧ HasDerivAt (fun t => logb b (f t)) w x := by
  refine ⟨f' / f x / log b, ?_, (hf.log h.ne').div_const (log b)⟩
  have := ln_ne hb n
  have := h.ne'
  field_simp
end Deriv

/-! ### folds over sequences -/
section Fold
variable {α : Type} (f : α → ℝ)
theorem sum_append (s t : List α) : ((s ++ t).map f).sum = (s.map f).sum + (t.map f).sum := by simp
theorem prod_append (s t : List α) : ((s ++ t).map f).prod = (s.map f).prod * (t.map f).prod := by simp
theorem sum_perm {s t : List α} (h : s.Perm t) : (s.map f).sum = (t.map f).sum := (h.map f).sum_eq
theorem prod_perm {s t : List α} (h : s.Perm t) : (s.map f).prod = (t.map f).prod := (h.map f).prod_eq
theorem sum_at (s : List α) (i : ℕ) (h : i < s.length) : (s.map f).sum = f s[i] + ((s.eraseIdx i).map f).sum := by
  have := (List.getElem_cons_eraseIdx_perm h).map f |>.sum_eq
  rw [← this]; simp
theorem prod_at (s : List α) (i : ℕ) (h : i < s.length) : (s.map f).prod = f s[i] * ((s.eraseIdx i).map f).prod := by
  have := (List.getElem_cons_eraseIdx_perm h).map f |>.prod_eq
  rw [← this]; simp
end Fold
end Laws
