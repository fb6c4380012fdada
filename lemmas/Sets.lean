import Mathlib.Data.List.Nodup
import Mathlib.Data.Finset.Card
import Mathlib.Data.Finset.Dedup

/-! Facts about `len(set(l))` used by the contracts of C02: the set of the elements of a list has
at most as many elements as the list, and exactly as many when no two elements are equal. -/

theorem card_le {α : Type} [DecidableEq α] (l : List α) : l.toFinset.card ≤ l.length :=
  l.toFinset_card_le

theorem card_eq_iff {α : Type} [DecidableEq α] (l : List α) :
    l.toFinset.card = l.length ↔ l.Nodup :=
  Multiset.toFinset_card_eq_card_iff_nodup (m := (l : Multiset α))
