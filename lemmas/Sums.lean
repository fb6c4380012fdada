import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Algebra.BigOperators.Field
import Mathlib.Algebra.Order.BigOperators.Group.Finset
import Mathlib.Data.Int.Interval
import Mathlib.Data.Real.Basic
import Mathlib.Tactic.Ring

/-! The rules by which pyvc/sums.py normalises finite sums over `lo <= k < hi`. -/

open Finset

theorem sum_empty (lo hi : ℤ) (f : ℤ → ℝ) (h : hi ≤ lo) : ∑ k ∈ Ico lo hi, f k = 0 := by
  rw [Ico_eq_empty (by omega), Finset.sum_empty]

theorem sum_ext (lo hi : ℤ) (f g : ℤ → ℝ) (h : ∀ k, lo ≤ k → k < hi → f k = g k) :
    ∑ k ∈ Ico lo hi, f k = ∑ k ∈ Ico lo hi, g k :=
  sum_congr rfl fun k hk => h k (mem_Ico.1 hk).1 (mem_Ico.1 hk).2

theorem sum_nonneg' (lo hi : ℤ) (f : ℤ → ℝ) (h : ∀ k, lo ≤ k → k < hi → 0 ≤ f k) :
    0 ≤ ∑ k ∈ Ico lo hi, f k :=
  sum_nonneg fun k hk => h k (mem_Ico.1 hk).1 (mem_Ico.1 hk).2

theorem sum_const' (lo hi : ℤ) (c : ℝ) (h : lo ≤ hi) :
    ∑ _k ∈ Ico lo hi, c = ((hi - lo : ℤ) : ℝ) * c := by
  rw [sum_const, Int.card_Ico, nsmul_eq_mul]
  congr 1
  rw [← Int.cast_natCast, Int.toNat_of_nonneg (by omega)]

theorem sum_add (lo hi : ℤ) (f g : ℤ → ℝ) :
    ∑ k ∈ Ico lo hi, (f k + g k) = ∑ k ∈ Ico lo hi, f k + ∑ k ∈ Ico lo hi, g k :=
  sum_add_distrib

theorem sum_sub (lo hi : ℤ) (f g : ℤ → ℝ) :
    ∑ k ∈ Ico lo hi, (f k - g k) = ∑ k ∈ Ico lo hi, f k - ∑ k ∈ Ico lo hi, g k :=
  sum_sub_distrib _ _

theorem sum_factor (lo hi : ℤ) (c : ℝ) (f : ℤ → ℝ) :
    ∑ k ∈ Ico lo hi, c * f k = c * ∑ k ∈ Ico lo hi, f k :=
  (mul_sum _ _ _).symm

theorem sum_quotient (lo hi : ℤ) (c : ℝ) (f : ℤ → ℝ) :
    ∑ k ∈ Ico lo hi, f k / c = (∑ k ∈ Ico lo hi, f k) / c :=
  (sum_div _ _ _).symm

theorem sum_split (lo m hi : ℤ) (f : ℤ → ℝ) (h : lo ≤ m) (h' : m ≤ hi) :
    ∑ k ∈ Ico lo m, f k + ∑ k ∈ Ico m hi, f k = ∑ k ∈ Ico lo hi, f k := by
  rw [← Ico_union_Ico_eq_Ico h h', sum_union (Ico_disjoint_Ico_consecutive lo m hi)]

theorem sum_last (lo hi : ℤ) (f : ℤ → ℝ) (h : lo ≤ hi) :
    ∑ k ∈ Ico lo (hi + 1), f k = ∑ k ∈ Ico lo hi, f k + f hi := by
  rw [← sum_split lo hi (hi + 1) f h (by omega)]
  congr 1
  rw [show Ico hi (hi + 1) = {hi} by ext x; simp; omega, sum_singleton]

theorem sum_cut (lo m hi : ℤ) (f g : ℤ → ℝ) (h : lo ≤ m) (h' : m ≤ hi) :
    ∑ k ∈ Ico lo hi, (if k < m then f k else g k) = ∑ k ∈ Ico lo m, f k + ∑ k ∈ Ico m hi, g k := by
  rw [← sum_split lo m hi _ h h']
  congr 1
  · exact sum_congr rfl fun k hk => if_pos (mem_Ico.1 hk).2
  · exact sum_congr rfl fun k hk => if_neg (not_lt.2 (mem_Ico.1 hk).1)

theorem sum_point (lo hi t : ℤ) (f g : ℤ → ℝ) :
    ∑ k ∈ Ico lo hi, (if k = t then f k else g k)
      = ∑ k ∈ Ico lo hi, g k + (if lo ≤ t ∧ t < hi then f t - g t else 0) := by
  have : ∀ k, (if k = t then f k else g k) = g k + (if k = t then f t - g t else 0) := by
    intro k; split_ifs with e
    · subst e; ring
    · ring
  rw [sum_congr rfl (fun k _ => this k), sum_add_distrib, sum_ite_eq']
  simp [mem_Ico]

/-- A condition that says that `k` is one of the distinct elements `s 0, ..., s (n-1)`. -/
theorem sum_scatter (lo hi n : ℤ) (s : ℤ → ℤ) (f g : ℤ → ℝ) (mem : ℤ → Prop) [DecidablePred mem]
    (hm : ∀ k, mem k ↔ ∃ j, 0 ≤ j ∧ j < n ∧ s j = k)
    (inj : ∀ i j, 0 ≤ i → i < j → j < n → s i ≠ s j) :
    ∑ k ∈ Ico lo hi, (if mem k then f k else g k)
      = ∑ k ∈ Ico lo hi, g k
        + ∑ j ∈ Ico 0 n, (if lo ≤ s j ∧ s j < hi then f (s j) - g (s j) else 0) := by
  have e : ∀ k, (if mem k then f k else g k) = g k + (if mem k then f k - g k else 0) := by
    intro k; split_ifs <;> ring
  rw [sum_congr rfl (fun k _ => e k), sum_add_distrib]
  congr 1
  rw [← sum_filter, ← sum_filter]
  symm
  refine sum_bij (fun j _ => s j) ?_ ?_ ?_ ?_
  · intro j hj
    simp only [mem_filter, mem_Ico] at hj ⊢
    exact ⟨hj.2, (hm _).2 ⟨j, hj.1.1, hj.1.2, rfl⟩⟩
  · intro i hi' j hj h
    simp only [mem_filter, mem_Ico] at hi' hj
    rcases lt_trichotomy i j with l | l | l
    · exact absurd h (inj i j hi'.1.1 l hj.1.2)
    · exact l
    · exact absurd h.symm (inj j i hj.1.1 l hi'.1.2)
  · intro k hk
    simp only [mem_filter, mem_Ico] at hk
    obtain ⟨j, h0, hn, hj⟩ := (hm k).1 hk.2
    exact ⟨j, by simp only [mem_filter, mem_Ico]; exact ⟨⟨h0, hn⟩, by rw [hj]; exact hk.1⟩, hj⟩
  · intro j _; rfl

/-- A sum over consecutive blocks: block `i` starts at `c i` and has `l i` elements. -/
theorem sum_blocks (n : ℕ) (c : ℕ → ℤ) (l : ℕ → ℤ) (f : ℤ → ℝ) (h0 : c 0 = 0)
    (hl : ∀ i, 0 ≤ l i) (hc : ∀ i, c (i + 1) = c i + l i) :
    ∑ k ∈ Ico 0 (c n), f k = ∑ i ∈ range n, ∑ j ∈ Ico 0 (l i), f (c i + j) := by
  have pos : ∀ m, 0 ≤ c m := by
    intro m
    induction m with
    | zero => omega
    | succ m ih => rw [hc]; have := hl m; omega
  induction n with
  | zero => simp [h0]
  | succ n ih =>
    rw [sum_range_succ, ← ih, hc, ← sum_split 0 (c n) (c n + l n) f (pos n) (by have := hl n; omega)]
    congr 1
    refine (sum_bij (fun j _ => c n + j) ?_ ?_ ?_ ?_).symm
    · intro j hj; simp only [mem_Ico] at hj ⊢; omega
    · intro i _ j _ h; simpa using h
    · intro k hk
      simp only [mem_Ico] at hk
      exact ⟨k - c n, by simp only [mem_Ico]; omega, by ring⟩
    · intro j _; rfl
