import Mathlib.Tactic
import Mathlib.Algebra.Order.Ring.Int

/-! Facts about the integer encoding of states used by contracts C14, C15, C16, C22.
`s >> k` is `s / 2^k` (floor), `n << k` is `n * 2^k`, bit `j` of `s` is `s / 2^j % 2`. -/

theorem div_div_pow (t : ℤ) (i k : ℕ) : t / 2 ^ (i + k) = t / 2 ^ i / 2 ^ k := by
  rw [pow_add, Int.ediv_ediv_of_nonneg (by positivity)]

theorem shift_add (s c : ℤ) (j : ℕ) : (s + c * 2 ^ j) / 2 ^ j = s / 2 ^ j + c :=
  Int.add_mul_ediv_right s c (by positivity)

/-- changing bit `i`: that bit -/
theorem bit_set_same (s b : ℤ) (i : ℕ) (hb : b = 0 ∨ b = 1) :
    (s + b * 2 ^ i - (s / 2 ^ i % 2) * 2 ^ i) / 2 ^ i % 2 = b := by
  have h : s + b * 2 ^ i - (s / 2 ^ i % 2) * 2 ^ i = s + (b - s / 2 ^ i % 2) * 2 ^ i := by ring
  rw [h, shift_add]
  omega

/-- changing bit `i`: everything above it -/
theorem bit_set_above (s b : ℤ) (i m : ℕ) (hb : b = 0 ∨ b = 1) (him : i < m) :
    (s + b * 2 ^ i - (s / 2 ^ i % 2) * 2 ^ i) / 2 ^ m = s / 2 ^ m := by
  have h : s + b * 2 ^ i - (s / 2 ^ i % 2) * 2 ^ i = s + (b - s / 2 ^ i % 2) * 2 ^ i := by ring
  obtain ⟨k, rfl⟩ : ∃ k, m = i + 1 + k := ⟨m - (i + 1), by omega⟩
  rw [h, div_div_pow _ (i + 1) k, div_div_pow _ i 1, shift_add, div_div_pow s (i + 1) k,
    div_div_pow s i 1]
  congr 1
  omega

/-- changing bit `i`: bits below it -/
theorem bit_set_below (s b : ℤ) (i j : ℕ) (hji : j < i) :
    (s + b * 2 ^ i - (s / 2 ^ i % 2) * 2 ^ i) / 2 ^ j % 2 = s / 2 ^ j % 2 := by
  obtain ⟨k, rfl⟩ : ∃ k, i = k + 1 + j := ⟨i - (j + 1), by omega⟩
  generalize s / 2 ^ (k + 1 + j) % 2 = c
  have h : s + b * 2 ^ (k + 1 + j) - c * 2 ^ (k + 1 + j)
      = s + (((b - c) * 2 ^ k) * 2) * 2 ^ j := by ring
  rw [h, shift_add]
  omega

/-- changing bit `i`: every other bit -/
theorem bit_set_other (s b : ℤ) (i j : ℕ) (hb : b = 0 ∨ b = 1) (hij : j ≠ i) :
    (s + b * 2 ^ i - (s / 2 ^ i % 2) * 2 ^ i) / 2 ^ j % 2 = s / 2 ^ j % 2 := by
  rcases Nat.lt_or_gt_of_ne hij with h | h
  · exact bit_set_below s b i j h
  · rw [bit_set_above s b i j hb h]

/-- replacing the part above `m`: the new part -/
theorem hi_set (s n : ℤ) (m : ℕ) :
    (s + (n * 2 ^ m - (s / 2 ^ m) * 2 ^ m)) / 2 ^ m = n := by
  have h : s + (n * 2 ^ m - (s / 2 ^ m) * 2 ^ m) = s + (n - s / 2 ^ m) * 2 ^ m := by ring
  rw [h, shift_add]; ring

/-- replacing the part above `m`: bits below `m` -/
theorem hi_set_bit (s n : ℤ) (m j : ℕ) (hj : j < m) :
    (s + (n * 2 ^ m - (s / 2 ^ m) * 2 ^ m)) / 2 ^ j % 2 = s / 2 ^ j % 2 := by
  obtain ⟨k, rfl⟩ : ∃ k, m = k + 1 + j := ⟨m - (j + 1), by omega⟩
  generalize s / 2 ^ (k + 1 + j) = c
  have h : s + (n * 2 ^ (k + 1 + j) - c * 2 ^ (k + 1 + j))
      = s + (((n - c) * 2 ^ k) * 2) * 2 ^ j := by ring
  rw [h, shift_add]
  omega

/-- the part above and the bits below determine the integer -/
theorem ext (s t : ℤ) (m : ℕ) (hi : s / 2 ^ m = t / 2 ^ m)
    (lo : ∀ j < m, s / 2 ^ j % 2 = t / 2 ^ j % 2) : s = t := by
  induction m with
  | zero => simpa using hi
  | succ m ih =>
    apply ih
    · have h1 := div_div_pow s m 1
      have h2 := div_div_pow t m 1
      have h3 := lo m (by omega)
      rw [h1, h2] at hi
      generalize s / 2 ^ m = x at *
      generalize t / 2 ^ m = y at *
      omega
    · intro j hj
      exact lo j (by omega)

/-- range of valid states -/
theorem range_iff (s H : ℤ) (m : ℕ) :
    (0 ≤ s ∧ s < H * 2 ^ m) ↔ (0 ≤ s / 2 ^ m ∧ s / 2 ^ m < H) := by
  have hp : (0 : ℤ) < 2 ^ m := by positivity
  constructor
  · rintro ⟨h1, h2⟩
    exact ⟨Int.ediv_nonneg h1 hp.le, Int.ediv_lt_of_lt_mul hp h2⟩
  · rintro ⟨h1, h2⟩
    constructor
    · by_contra h
      have : s / 2 ^ m < 0 := Int.ediv_neg_of_neg_of_pos (by omega) hp
      omega
    · exact (Int.ediv_lt_iff_lt_mul hp).mp h2

/-- the bits below `m` of a number below `2^m` times something -/
theorem zero_bit (j : ℕ) : (0 : ℤ) / 2 ^ j % 2 = 0 := by simp

theorem zero_hi (m : ℕ) : (0 : ℤ) / 2 ^ m = 0 := by simp

/-- part above and bits of `h * 2^m + r` -/
theorem split_hi (h r : ℤ) (m : ℕ) (h0 : 0 ≤ r) (h1 : r < 2 ^ m) :
    (h * 2 ^ m + r) / 2 ^ m = h := by
  rw [add_comm, shift_add, Int.ediv_eq_zero_of_lt h0 h1]; ring

/-- every number is its part above `m` plus a remainder below `2^m` -/
theorem decomp (s : ℤ) (m : ℕ) : 0 ≤ s - s / 2 ^ m * 2 ^ m ∧ s - s / 2 ^ m * 2 ^ m < 2 ^ m := by
  have hp : (0 : ℤ) < 2 ^ m := by positivity
  have h := Int.emod_nonneg s hp.ne'
  have h2 := Int.emod_lt_of_pos s hp
  have h3 := Int.mul_ediv_add_emod s (2 ^ m)
  constructor <;> nlinarith

theorem pow_add' (m n : ℕ) : (2 : ℤ) ^ (m + n) = 2 ^ m * 2 ^ n := pow_add 2 m n

theorem shift_shift (s : ℤ) (m k : ℕ) : s / 2 ^ (m + k) = s / 2 ^ m / 2 ^ k := div_div_pow s m k
