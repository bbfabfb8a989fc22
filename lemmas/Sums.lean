/-
The rules on bounded sums, products, quantifiers, exponentials, logarithms and loops that
engine/prover.py, engine/terms.py and engine/loops.py apply, proved once for all ranges.
A range is  lo <= k < hi  over the integers (empty when hi <= lo), as in the engine.
Each heading names the function of the engine that applies the rule.
-/
import Mathlib

open Finset BigOperators

namespace Sums

/-- Guarded monomial, the shape of one term of the normal form. -/
noncomputable def gm (g : Prop) [Decidable g] (x : ℝ) : ℝ := if g then x else 0

/-! ### prover.nf: normal form -/

theorem sum_add (lo hi : ℤ) (f g : ℤ → ℝ) :
    ∑ k ∈ Ico lo hi, (f k + g k) = ∑ k ∈ Ico lo hi, f k + ∑ k ∈ Ico lo hi, g k :=
  Finset.sum_add_distrib

theorem mul_sum_sum (lo hi lo' hi' : ℤ) (f g : ℤ → ℝ) :
    (∑ k ∈ Ico lo hi, f k) * (∑ l ∈ Ico lo' hi', g l)
      = ∑ k ∈ Ico lo hi, ∑ l ∈ Ico lo' hi', f k * g l :=
  Finset.sum_mul_sum _ _ _ _

theorem scale_sum (lo hi : ℤ) (c : ℝ) (f : ℤ → ℝ) :
    c * ∑ k ∈ Ico lo hi, f k = ∑ k ∈ Ico lo hi, c * f k := Finset.mul_sum _ _ _

theorem ite_split (c : Prop) [Decidable c] (x y : ℝ) :
    (if c then x else y) = gm c x + gm (¬ c) y := by
  unfold gm; split_ifs <;> simp

theorem gm_mul (g h : Prop) [Decidable g] [Decidable h] (x y : ℝ) :
    gm g x * gm h y = gm (g ∧ h) (x * y) := by
  unfold gm; split_ifs <;> simp_all

theorem gm_sum (g : Prop) [Decidable g] (lo hi : ℤ) (f : ℤ → ℝ) :
    gm g (∑ k ∈ Ico lo hi, f k) = ∑ k ∈ Ico lo hi, gm g (f k) := by
  unfold gm; split_ifs <;> simp

theorem interchange (lo hi lo' hi' : ℤ) (f : ℤ → ℤ → ℝ) :
    ∑ k ∈ Ico lo hi, ∑ l ∈ Ico lo' hi', f k l = ∑ l ∈ Ico lo' hi', ∑ k ∈ Ico lo hi, f k l :=
  Finset.sum_comm

/-- A dependent inner range is a guard of the wider range. -/
theorem range_as_guard (A B lo hi : ℤ) (hA : A ≤ lo) (hB : hi ≤ B) (f : ℤ → ℝ) :
    ∑ k ∈ Ico lo hi, f k = ∑ k ∈ Ico A B, gm (lo ≤ k ∧ k < hi) (f k) := by
  unfold gm
  rw [← Finset.sum_filter]
  apply Finset.sum_congr _ (fun _ _ => rfl)
  ext k; simp only [mem_Ico, mem_filter]; omega

theorem toreal_sum (lo hi : ℤ) (f : ℤ → ℤ) :
    ((∑ k ∈ Ico lo hi, f k : ℤ) : ℝ) = ∑ k ∈ Ico lo hi, ((f k : ℤ) : ℝ) := by push_cast; rfl

theorem inv_exp (u : ℝ) : (Real.exp u)⁻¹ = Real.exp (-u) := (Real.exp_neg u).symm

theorem inv_mul (x y : ℝ) : (x * y)⁻¹ = x⁻¹ * y⁻¹ := by rw [_root_.mul_inv]

/-! ### prover.delta, prover.split_terms: binders fixed by an equality, case split -/

theorem delta (lo hi s : ℤ) (f : ℤ → ℝ) :
    ∑ k ∈ Ico lo hi, gm (k = s) (f k) = gm (lo ≤ s ∧ s < hi) (f s) := by
  unfold gm
  rw [Finset.sum_ite_eq' (Ico lo hi) s f]
  simp [mem_Ico]

/-- The equality may come as  -k + r = 0  (prover.solve_for). -/
theorem delta_neg (lo hi r : ℤ) (f : ℤ → ℝ) :
    ∑ k ∈ Ico lo hi, gm (-k + r = 0) (f k) = gm (lo ≤ r ∧ r < hi) (f r) := by
  rw [← delta]
  apply Finset.sum_congr rfl
  intro k _
  have : (-k + r = 0) ↔ (k = r) := by omega
  unfold gm; simp only [this]

theorem case_split (g c : Prop) [Decidable g] [Decidable c] (x : ℝ) :
    gm g x = gm (g ∧ c) x + gm (g ∧ ¬ c) x := by
  unfold gm; split_ifs <;> simp_all

/-! ### prover.count_out: a binder absent from the monomial is counted -/

theorem count (lo hi : ℤ) (x : ℝ) :
    ∑ _k ∈ Ico lo hi, x = gm (lo < hi) (((hi - lo : ℤ) : ℝ) * x) := by
  unfold gm
  rw [Finset.sum_const, Int.card_Ico, nsmul_eq_mul]
  split_ifs with h
  · have : (((hi - lo).toNat : ℕ) : ℝ) = ((hi - lo : ℤ) : ℝ) := by
      have h2 : (((hi - lo).toNat : ℕ) : ℤ) = hi - lo := Int.toNat_of_nonneg (by omega)
      exact_mod_cast h2
    rw [this]
  · have : (hi - lo).toNat = 0 := by omega
    rw [this]; simp

theorem exclude (g c : Prop) [Decidable g] [Decidable c] (x : ℝ) :
    gm (g ∧ ¬ c) x = gm g x - gm (g ∧ c) x := by
  unfold gm; split_ifs <;> simp_all

theorem or_split (g a b : Prop) [Decidable g] [Decidable a] [Decidable b] (x : ℝ) :
    gm (g ∧ (a ∨ b)) x = gm (g ∧ a) x + gm (g ∧ ¬ a ∧ b) x := by
  unfold gm; split_ifs <;> simp_all

/-- Two lower bounds: the larger one counts (likewise upper bounds). -/
theorem lower_two (a b k : ℤ) : (a ≤ k ∧ b ≤ k) ↔ ((a ≤ b ∧ b ≤ k) ∨ (b < a ∧ a ≤ k)) := by omega
theorem upper_two (a b k : ℤ) : (k < a ∧ k < b) ↔ ((b ≤ a ∧ k < b) ∨ (a < b ∧ k < a)) := by omega

/-! ### prover.sum_eq1, coef_zero: terms with equal coefficient functions are equal -/

theorem coef_zero (lo hi : ℤ) (c m : ℤ → ℝ) (h : ∀ k, lo ≤ k → k < hi → m k ≠ 0 → c k = 0) :
    ∑ k ∈ Ico lo hi, c k * m k = 0 := by
  apply Finset.sum_eq_zero
  intro k hk
  rw [mem_Ico] at hk
  by_cases hm : m k = 0
  · simp [hm]
  · rw [h k hk.1 hk.2 hm]; simp

/-- Symmetrisation: a monomial invariant under exchange of its binders. -/
theorem symmetrise (lo hi : ℤ) (c m : ℤ → ℤ → ℝ) (hm : ∀ k l, m k l = m l k)
    (h : ∀ k l, c k l + c l k = 0) :
    ∑ k ∈ Ico lo hi, ∑ l ∈ Ico lo hi, c k l * m k l = 0 := by
  set S := ∑ k ∈ Ico lo hi, ∑ l ∈ Ico lo hi, c k l * m k l with hS
  have h1 : S = ∑ k ∈ Ico lo hi, ∑ l ∈ Ico lo hi, c l k * m k l := by
    rw [hS, Finset.sum_comm]
    apply Finset.sum_congr rfl; intro k _
    apply Finset.sum_congr rfl; intro l _
    rw [hm l k]
  have h2 : S + S = 0 := by
    nth_rewrite 2 [h1]
    rw [hS, ← Finset.sum_add_distrib]
    apply Finset.sum_eq_zero; intro k _
    rw [← Finset.sum_add_distrib]
    apply Finset.sum_eq_zero; intro l _
    rw [← add_mul, h k l, zero_mul]
  linarith

/-! ### prover.congruence: equal bodies on the range -/

theorem sum_congr_range (lo hi : ℤ) (f g : ℤ → ℝ) (h : ∀ k, lo ≤ k → k < hi → f k = g k) :
    ∑ k ∈ Ico lo hi, f k = ∑ k ∈ Ico lo hi, g k :=
  Finset.sum_congr rfl (fun k hk => by rw [mem_Ico] at hk; exact h k hk.1 hk.2)

theorem prod_congr_range (lo hi : ℤ) (f g : ℤ → ℝ) (h : ∀ k, lo ≤ k → k < hi → f k = g k) :
    ∏ k ∈ Ico lo hi, f k = ∏ k ∈ Ico lo hi, g k :=
  Finset.prod_congr rfl (fun k hk => by rw [mem_Ico] at hk; exact h k hk.1 hk.2)

/-! ### prover.exp_rules -/

theorem prod_exp (lo hi : ℤ) (u : ℤ → ℝ) :
    ∏ k ∈ Ico lo hi, Real.exp (u k) = Real.exp (∑ k ∈ Ico lo hi, u k) := (Real.exp_sum _ _).symm

theorem one_is_exp : (1 : ℝ) = Real.exp 0 := Real.exp_zero.symm

/-! ### prover.binder_facts -/

theorem sum_nonneg' (lo hi : ℤ) (f : ℤ → ℝ) (h : ∀ k, lo ≤ k → k < hi → 0 ≤ f k) :
    0 ≤ ∑ k ∈ Ico lo hi, f k :=
  Finset.sum_nonneg (fun k hk => by rw [mem_Ico] at hk; exact h k hk.1 hk.2)

theorem sum_zero_iff (lo hi : ℤ) (f : ℤ → ℝ) (h : ∀ k, lo ≤ k → k < hi → 0 ≤ f k) :
    ∑ k ∈ Ico lo hi, f k = 0 ↔ ¬ ∃ k, lo ≤ k ∧ k < hi ∧ f k ≠ 0 := by
  rw [Finset.sum_eq_zero_iff_of_nonneg
    (fun k hk => by rw [mem_Ico] at hk; exact h k hk.1 hk.2)]
  push Not
  constructor
  · intro H k h1 h2; exact H k (mem_Ico.2 ⟨h1, h2⟩)
  · intro H k hk; rw [mem_Ico] at hk; exact H k hk.1 hk.2

theorem sum_nonpos' (lo hi : ℤ) (f : ℤ → ℝ) (h : ∀ k, lo ≤ k → k < hi → f k ≤ 0) :
    ∑ k ∈ Ico lo hi, f k ≤ 0 :=
  Finset.sum_nonpos (fun k hk => by rw [mem_Ico] at hk; exact h k hk.1 hk.2)

theorem sum_zero_of_none (lo hi : ℤ) (f : ℤ → ℝ) (h : ¬ ∃ k, lo ≤ k ∧ k < hi ∧ f k ≠ 0) :
    ∑ k ∈ Ico lo hi, f k = 0 := by
  push Not at h
  exact Finset.sum_eq_zero (fun k hk => by rw [mem_Ico] at hk; exact h k hk.1 hk.2)

theorem prod_nonneg' (lo hi : ℤ) (f : ℤ → ℝ) (h : ∀ k, lo ≤ k → k < hi → 0 ≤ f k) :
    0 ≤ ∏ k ∈ Ico lo hi, f k :=
  Finset.prod_nonneg (fun k hk => by rw [mem_Ico] at hk; exact h k hk.1 hk.2)

theorem prod_pos' (lo hi : ℤ) (f : ℤ → ℝ) (h : ∀ k, lo ≤ k → k < hi → 0 < f k) :
    0 < ∏ k ∈ Ico lo hi, f k :=
  Finset.prod_pos (fun k hk => by rw [mem_Ico] at hk; exact h k hk.1 hk.2)

theorem prod_zero_iff (lo hi : ℤ) (f : ℤ → ℝ) :
    ∏ k ∈ Ico lo hi, f k = 0 ↔ ∃ k, lo ≤ k ∧ k < hi ∧ f k = 0 := by
  rw [Finset.prod_eq_zero_iff]
  simp only [mem_Ico]
  constructor
  · rintro ⟨k, ⟨h1, h2⟩, h3⟩; exact ⟨k, h1, h2, h3⟩
  · rintro ⟨k, h1, h2, h3⟩; exact ⟨k, ⟨h1, h2⟩, h3⟩

theorem prod_le_one' (lo hi : ℤ) (f : ℤ → ℝ) (h0 : ∀ k, lo ≤ k → k < hi → 0 ≤ f k)
    (h1 : ∀ k, lo ≤ k → k < hi → f k ≤ 1) : ∏ k ∈ Ico lo hi, f k ≤ 1 :=
  Finset.prod_le_one (fun k hk => by rw [mem_Ico] at hk; exact h0 k hk.1 hk.2)
    (fun k hk => by rw [mem_Ico] at hk; exact h1 k hk.1 hk.2)

theorem one_le_prod' (lo hi : ℤ) (f : ℤ → ℝ) (h1 : ∀ k, lo ≤ k → k < hi → 1 ≤ f k) :
    1 ≤ ∏ k ∈ Ico lo hi, f k := by
  have key : ∀ s : Finset ℤ, (∀ k ∈ s, 1 ≤ f k) → 1 ≤ ∏ k ∈ s, f k := by
    intro s
    induction s using Finset.induction_on with
    | empty => intro _; simp
    | insert a s ha ih =>
      intro H
      rw [Finset.prod_insert ha]
      have e1 := H a (Finset.mem_insert_self a s)
      have e2 := ih (fun k hk => H k (Finset.mem_insert_of_mem hk))
      nlinarith
  exact key _ (fun k hk => by rw [mem_Ico] at hk; exact h1 k hk.1 hk.2)

theorem prod_one_iff (lo hi : ℤ) (f : ℤ → ℝ) (h0 : ∀ k, lo ≤ k → k < hi → 0 ≤ f k)
    (h1 : ∀ k, lo ≤ k → k < hi → f k ≤ 1) :
    ∏ k ∈ Ico lo hi, f k = 1 ↔ ¬ ∃ k, lo ≤ k ∧ k < hi ∧ f k ≠ 1 := by
  constructor
  · rintro hp ⟨k, hk1, hk2, hk3⟩
    have hk : k ∈ Ico lo hi := mem_Ico.2 ⟨hk1, hk2⟩
    rw [← Finset.mul_prod_erase _ _ hk] at hp
    have hr1 : ∏ x ∈ (Ico lo hi).erase k, f x ≤ 1 :=
      Finset.prod_le_one
        (fun x hx => by have := mem_Ico.1 (Finset.mem_of_mem_erase hx); exact h0 x this.1 this.2)
        (fun x hx => by have := mem_Ico.1 (Finset.mem_of_mem_erase hx); exact h1 x this.1 this.2)
    have hlt : f k < 1 := lt_of_le_of_ne (h1 k hk1 hk2) hk3
    have hge := h0 k hk1 hk2
    nlinarith
  · intro h
    push Not at h
    exact Finset.prod_eq_one (fun k hk => by rw [mem_Ico] at hk; exact h k hk.1 hk.2)

/-! ### prover.axioms: exponential and logarithm -/

theorem exp_pos' (u : ℝ) : 0 < Real.exp u := Real.exp_pos u
theorem exp_ge (u : ℝ) : 1 + u ≤ Real.exp u := by have := Real.add_one_le_exp u; linarith
theorem exp_at_zero (u : ℝ) (h : u = 0) : Real.exp u = 1 := by rw [h, Real.exp_zero]
theorem exp_lt (u : ℝ) (h : u < 0) : Real.exp u < 1 := by simpa using Real.exp_lt_exp.2 h
theorem exp_mono (u v : ℝ) : u ≤ v ↔ Real.exp u ≤ Real.exp v := Real.exp_le_exp.symm
theorem exp_inj (u v : ℝ) : u = v ↔ Real.exp u = Real.exp v :=
  ⟨fun h => by rw [h], fun h => Real.exp_injective h⟩
theorem exp_opp (u v : ℝ) (h : u + v = 0) : Real.exp u * Real.exp v = 1 := by
  rw [← Real.exp_add, h, Real.exp_zero]
theorem log_le (u : ℝ) (h : 0 < u) : Real.log u ≤ u - 1 := Real.log_le_sub_one_of_pos h
theorem log_at_one (u : ℝ) (h : u = 1) : Real.log u = 0 := by rw [h, Real.log_one]
theorem log_neg' (u : ℝ) (h0 : 0 < u) (h1 : u < 1) : Real.log u < 0 := Real.log_neg h0 h1
theorem log_pos' (u : ℝ) (h : 1 < u) : 0 < Real.log u := Real.log_pos h
theorem log_exp_iff (u v : ℝ) : u = Real.exp v ↔ (0 < u ∧ Real.log u = v) := by
  constructor
  · intro h; rw [h]; exact ⟨Real.exp_pos v, Real.log_exp v⟩
  · rintro ⟨h0, h1⟩; rw [← h1, Real.exp_log h0]
theorem log_mono (u v : ℝ) (hu : 0 < u) (hv : 0 < v) : u ≤ v ↔ Real.log u ≤ Real.log v :=
  (Real.log_le_log_iff hu hv).symm
theorem log_inj (u v : ℝ) (hu : 0 < u) (hv : 0 < v) : u = v ↔ Real.log u = Real.log v :=
  ⟨fun h => by rw [h], fun h => Real.log_injOn_pos hu hv h⟩

/-! ### terms.bsum: constructor simplifications -/

theorem sum_empty (lo hi : ℤ) (h : hi ≤ lo) (f : ℤ → ℝ) : ∑ k ∈ Ico lo hi, f k = 0 := by
  rw [Finset.Ico_eq_empty (by omega)]; simp

theorem sum_single (lo : ℤ) (f : ℤ → ℝ) : ∑ k ∈ Ico lo (lo + 1), f k = f lo := by
  have : Ico lo (lo + 1) = {lo} := by ext k; simp only [mem_Ico, mem_singleton]; omega
  rw [this]; simp

/-! ### loops: for k in range(lo, lo + n), state s, body f -/

/-- The state after n iterations starting at index lo. -/
def loop {S : Type*} (f : ℤ → S → S) (lo : ℤ) : ℕ → S → S
  | 0, s => s
  | n + 1, s => f (lo + n) (loop f lo n s)

theorem ico_succ (lo : ℤ) (n : ℕ) :
    Ico lo (lo + ((n + 1 : ℕ) : ℤ)) = insert (lo + n) (Ico lo (lo + n)) := by
  ext k; simp only [mem_Ico, mem_insert]; push_cast; omega

theorem loop_add (f : ℤ → ℝ → ℝ) (D : ℤ → ℝ) (lo : ℤ) (n : ℕ) (x : ℝ)
    (h : ∀ k s, f k s = s + D k) : loop f lo n x = x + ∑ k ∈ Ico lo (lo + n), D k := by
  induction n with
  | zero => simp [loop]
  | succ n ih =>
    rw [loop, ih, h, ico_succ, Finset.sum_insert (by simp)]; ring

theorem loop_mul (f : ℤ → ℝ → ℝ) (G : ℤ → ℝ) (lo : ℤ) (n : ℕ) (x : ℝ)
    (h : ∀ k s, f k s = s * G k) : loop f lo n x = x * ∏ k ∈ Ico lo (lo + n), G k := by
  induction n with
  | zero => simp [loop]
  | succ n ih =>
    rw [loop, ih, h, ico_succ, Finset.prod_insert (by simp)]; ring

theorem range_succ (lo k : ℤ) (n : ℕ) :
    (lo ≤ k ∧ k < lo + ((n + 1 : ℕ) : ℤ)) ↔ ((lo ≤ k ∧ k < lo + n) ∨ k = lo + n) := by
  push_cast; omega

theorem loop_or (f : ℤ → Prop → Prop) (c : ℤ → Prop) (lo : ℤ) (n : ℕ) (b : Prop)
    (h : ∀ k s, f k s ↔ (s ∨ c k)) :
    loop f lo n b ↔ (b ∨ ∃ k, (lo ≤ k ∧ k < lo + n) ∧ c k) := by
  induction n with
  | zero =>
    simp only [loop, Nat.cast_zero, add_zero]
    constructor
    · exact Or.inl
    · rintro (hb | ⟨k, ⟨h1, h2⟩, _⟩)
      · exact hb
      · omega
  | succ n ih =>
    rw [loop, h, ih]
    simp only [range_succ]
    constructor
    · rintro ((hb | ⟨k, hk, hc⟩) | hc)
      · exact Or.inl hb
      · exact Or.inr ⟨k, Or.inl hk, hc⟩
      · exact Or.inr ⟨lo + n, Or.inr rfl, hc⟩
    · rintro (hb | ⟨k, hk | rfl, hc⟩)
      · exact Or.inl (Or.inl hb)
      · exact Or.inl (Or.inr ⟨k, hk, hc⟩)
      · exact Or.inr hc

theorem loop_and (f : ℤ → Prop → Prop) (c : ℤ → Prop) (lo : ℤ) (n : ℕ) (b : Prop)
    (h : ∀ k s, f k s ↔ (s ∧ c k)) :
    loop f lo n b ↔ (b ∧ ∀ k, (lo ≤ k ∧ k < lo + n) → c k) := by
  induction n with
  | zero =>
    simp only [loop, Nat.cast_zero, add_zero]
    constructor
    · intro hb; exact ⟨hb, fun k hk => by omega⟩
    · exact And.left
  | succ n ih =>
    rw [loop, h, ih]
    simp only [range_succ]
    constructor
    · rintro ⟨⟨hb, hf⟩, hc⟩
      refine ⟨hb, fun k hk => ?_⟩
      rcases hk with hk | rfl
      · exact hf k hk
      · exact hc
    · rintro ⟨hb, hf⟩
      exact ⟨⟨hb, fun k hk => hf k (Or.inl hk)⟩, hf _ (Or.inr rfl)⟩

/-- x' = if c(k) then v else x, with v independent of k. -/
theorem loop_constant {S : Type*} (f : ℤ → S → S) (c : ℤ → Prop) (v : S) (lo : ℤ) (n : ℕ) (x : S)
    (h1 : ∀ k s, c k → f k s = v) (h2 : ∀ k s, ¬ c k → f k s = s) :
    ((∃ k, (lo ≤ k ∧ k < lo + n) ∧ c k) → loop f lo n x = v) ∧
    ((¬ ∃ k, (lo ≤ k ∧ k < lo + n) ∧ c k) → loop f lo n x = x) := by
  induction n with
  | zero =>
    refine ⟨?_, fun _ => rfl⟩
    rintro ⟨k, ⟨a, b⟩, _⟩; simp at b; omega
  | succ n ih =>
    simp only [range_succ]
    by_cases hc : c (lo + n)
    · refine ⟨fun _ => by rw [loop, h1 _ _ hc], fun hn => ?_⟩
      exact absurd ⟨lo + n, Or.inr rfl, hc⟩ hn
    · constructor
      · rintro ⟨k, hk | rfl, hck⟩
        · rw [loop, h2 _ _ hc]; exact ih.1 ⟨k, hk, hck⟩
        · exact absurd hck hc
      · intro hn
        rw [loop, h2 _ _ hc]
        exact ih.2 (fun ⟨k, hk, hck⟩ => hn ⟨k, Or.inl hk, hck⟩)

/-- x' = g(k): the last value. -/
theorem loop_overwrite {S : Type*} (f : ℤ → S → S) (g : ℤ → S) (lo : ℤ) (n : ℕ) (x : S)
    (h : ∀ k s, f k s = g k) : loop f lo (n + 1) x = g (lo + n) := by rw [loop, h]

/-- a'(i) = a(i) + D(k, i). -/
theorem loop_array_add {J : Type*} (f : ℤ → (J → ℝ) → (J → ℝ)) (D : ℤ → J → ℝ) (lo : ℤ) (n : ℕ)
    (a : J → ℝ) (h : ∀ k s i, f k s i = s i + D k i) (i : J) :
    loop f lo n a i = a i + ∑ k ∈ Ico lo (lo + n), D k i := by
  induction n with
  | zero => simp [loop]
  | succ n ih =>
    rw [loop, h, ih, ico_succ, Finset.sum_insert (by simp)]; ring

/-- a'(s(k)) = v(k), every other entry kept: entries never addressed keep their value. -/
theorem loop_store_frame {J V : Type*} (f : ℤ → (J → V) → (J → V)) (s : ℤ → J) (lo : ℤ) (n : ℕ)
    (a : J → V) (h : ∀ k t i, i ≠ s k → f k t i = t i) (i : J)
    (hi : ∀ k, (lo ≤ k ∧ k < lo + n) → i ≠ s k) : loop f lo n a i = a i := by
  induction n with
  | zero => rfl
  | succ n ih =>
    rw [loop, h _ _ _ (hi _ ((range_succ _ _ _).2 (Or.inr rfl)))]
    exact ih (fun k hk => hi k ((range_succ _ _ _).2 (Or.inl hk)))

/-- ... and an entry addressed by exactly one index holds the value stored there. -/
theorem loop_store {J V : Type*} (f : ℤ → (J → V) → (J → V)) (s : ℤ → J) (v : ℤ → V) (lo : ℤ)
    (n : ℕ) (a : J → V) (h1 : ∀ k t, f k t (s k) = v k) (h2 : ∀ k t i, i ≠ s k → f k t i = t i)
    (k : ℤ) (hk : lo ≤ k ∧ k < lo + n)
    (hu : ∀ l, (lo ≤ l ∧ l < lo + n) → s l = s k → l = k) : loop f lo n a (s k) = v k := by
  induction n with
  | zero => simp at hk; omega
  | succ n ih =>
    rw [range_succ] at hk
    rcases hk with hk | rfl
    · have hne : s k ≠ s (lo + n) := by
        intro e
        have := hu (lo + n) ((range_succ _ _ _).2 (Or.inr rfl)) e.symm
        omega
      rw [loop, h2 _ _ _ hne]
      exact ih hk (fun l hl e => hu l ((range_succ _ _ _).2 (Or.inl hl)) e)
    · rw [loop, h1]

/-- Appending one entry per iteration: entry j of the result is the one of iteration lo + j. -/
theorem loop_append {V : Type*} (f : ℤ → List V → List V) (v : ℤ → V) (lo : ℤ) (n : ℕ)
    (h : ∀ k s, f k s = s ++ [v k]) :
    loop f lo n [] = (List.range n).map (fun (j : ℕ) => v (lo + j)) := by
  induction n with
  | zero => rfl
  | succ n ih => rw [loop, ih, h, List.range_succ, List.map_append]; rfl

/-- Early exit: either no index satisfies the exit condition, or there is a first one. -/
theorem first_exit (c : ℤ → Prop) (lo : ℤ) (n : ℕ) :
    (∀ k, (lo ≤ k ∧ k < lo + n) → ¬ c k) ∨
    ∃ K, (lo ≤ K ∧ K < lo + n) ∧ c K ∧ ∀ k, (lo ≤ k ∧ k < K) → ¬ c k := by
  induction n with
  | zero => left; intro k hk; simp at hk; omega
  | succ n ih =>
    rcases ih with ih | ⟨K, hK, hc, hf⟩
    · by_cases hc : c (lo + n)
      · right
        exact ⟨lo + n, (range_succ _ _ _).2 (Or.inr rfl), hc, fun k hk => ih k hk⟩
      · left
        intro k hk
        rcases (range_succ _ _ _).1 hk with hk | rfl
        · exact ih k hk
        · exact hc
    · right
      exact ⟨K, (range_succ _ _ _).2 (Or.inl hK), hc, hf⟩

/-- Loop invariant rule (engine/hoare.py): entry and preservation give the invariant at exit. -/
theorem invariant {S : Type*} (f : ℤ → S → S) (Inv : ℤ → S → Prop) (lo : ℤ) (n : ℕ) (s : S)
    (h0 : Inv lo s) (h : ∀ k t, lo ≤ k → k < lo + n → Inv k t → Inv (k + 1) (f k t)) :
    Inv (lo + n) (loop f lo n s) := by
  induction n with
  | zero => simpa [loop] using h0
  | succ n ih =>
    have e : lo + ((n + 1 : ℕ) : ℤ) = (lo + n) + 1 := by push_cast; ring
    rw [e, loop]
    apply h _ _ (by omega) (by push_cast; omega)
    exact ih (fun k t a b c => h k t a (by push_cast; omega) c)

/-! ### Partition into consecutive blocks (C17): the induction over the block number -/

/-- Bounds b(0) <= b(1) <= ... cut a sum into the sums of the blocks. -/
theorem blocks (b : ℕ → ℤ) (hb : ∀ j, b j ≤ b (j + 1)) (f : ℤ → ℝ) (m : ℕ) :
    ∑ j ∈ range m, ∑ k ∈ Ico (b j) (b (j + 1)), f k = ∑ k ∈ Ico (b 0) (b m), f k := by
  induction m with
  | zero => simp
  | succ m ih =>
    rw [Finset.sum_range_succ, ih]
    have h0 : b 0 ≤ b m := monotone_nat_of_le_succ hb (Nat.zero_le m)
    have hd : Disjoint (Ico (b 0) (b m)) (Ico (b m) (b (m + 1))) :=
      Finset.Ico_disjoint_Ico_consecutive _ _ _
    rw [← Finset.sum_union hd, Finset.Ico_union_Ico_eq_Ico h0 (hb m)]

end Sums
