import Mathlib
/-! The closed form of contracts/c19.py is the Euclidean projection onto the probability simplex. -/
open Finset

namespace Sparsemax

/-- `css` of contracts/c19.py: running sum of the sorted slice, minus one. -/
noncomputable def css (u : ℕ → ℝ) (j : ℕ) : ℝ := ∑ i ∈ range (j + 1), u i - 1

open Classical in
/-- `k` of contracts/c19.py. -/
noncomputable def k (u : ℕ → ℝ) (n : ℕ) : ℕ := ∑ j ∈ range n, if 0 ≤ u j - css u j * ((j + 1 : ℕ) : ℝ)⁻¹ then 1 else 0

noncomputable def tau (u : ℕ → ℝ) (n : ℕ) : ℝ := css u (k u n - 1) * ((k u n : ℕ) : ℝ)⁻¹

noncomputable def w (u : ℕ → ℝ) (n : ℕ) (e : ℝ) : ℝ := if 0 ≤ e - tau u n then e - tau u n else 0

def ok (u : ℕ → ℝ) (j : ℕ) : Prop := css u j ≤ (j + 1) * u j

theorem ok_iff (u : ℕ → ℝ) (j : ℕ) : 0 ≤ u j - css u j * ((j + 1 : ℕ) : ℝ)⁻¹ ↔ ok u j := by
  have h : (0 : ℝ) < ((j + 1 : ℕ) : ℝ) := by positivity
  rw [ok, sub_nonneg, ← div_eq_mul_inv, div_le_iff₀ h]
  push_cast
  rw [mul_comm]

theorem ok_down (u : ℕ → ℝ) (j : ℕ) (h : u (j + 1) ≤ u j) (hok : ok u (j + 1)) : ok u j := by
  unfold ok css at *
  rw [sum_range_succ] at hok
  push_cast at hok
  have : (0 : ℝ) ≤ (j : ℝ) + 1 := by positivity
  nlinarith

/-- The positions that count are a prefix. -/
theorem prefix_ok (u : ℕ → ℝ) (n : ℕ) (anti : ∀ i j, i ≤ j → j < n → u j ≤ u i) (i j : ℕ) (hij : i ≤ j) (hj : j < n) (h : ok u j) : ok u i := by
  induction j with
  | zero => have : i = 0 := by omega
            subst this; exact h
  | succ j ih =>
    by_cases e : i = j + 1
    · subst e; exact h
    · exact ih (by omega) (by omega) (ok_down u j (anti _ _ (by omega) hj) h)

theorem k_spec (u : ℕ → ℝ) (n : ℕ) (hn : 0 < n) (anti : ∀ i j, i ≤ j → j < n → u j ≤ u i) :
    0 < k u n ∧ k u n ≤ n ∧ ∀ j, j < n → (ok u j ↔ j < k u n) := by
  classical
  have hk : k u n = ((range n).filter (fun j => ok u j)).card := by
    rw [k, card_filter]
    refine sum_congr rfl fun j _ => ?_
    by_cases h : ok u j
    · rw [if_pos h, if_pos ((ok_iff u j).2 h)]
    · rw [if_neg h, if_neg (fun c => h ((ok_iff u j).1 c))]
  have hpre : ∀ m, m ≤ n → (∀ j, j < m → ok u j) → (∀ j, m ≤ j → j < n → ¬ ok u j) → k u n = m := by
    intro m hm h1 h2
    rw [hk]
    have : (range n).filter (fun j => ok u j) = range m := by
      ext j
      simp only [mem_filter, mem_range]
      constructor
      · rintro ⟨hj, ho⟩
        by_contra hc
        exact h2 j (by omega) hj ho
      · intro hj
        exact ⟨by omega, h1 j hj⟩
    rw [this, card_range]
  have h0 : ok u 0 := by simp [ok, css]
  -- the first position that does not count, or n
  by_cases hall : ∀ j, j < n → ok u j
  · have : k u n = n := hpre n le_rfl hall (fun j h1 h2 => by omega)
    rw [this]
    exact ⟨hn, le_rfl, fun j hj => ⟨fun _ => hj, fun _ => hall j hj⟩⟩
  · push Not at hall
    have hex : ∃ j, j < n ∧ ¬ ok u j := hall
    let m := Nat.find hex
    have hm := Nat.find_spec hex
    have hlt : ∀ j, j < m → ok u j := by
      intro j hj
      by_contra hc
      exact Nat.find_min hex hj ⟨lt_trans hj hm.1, hc⟩
    have hge : ∀ j, m ≤ j → j < n → ¬ ok u j := fun j h1 h2 hc => hm.2 (prefix_ok u n anti m j h1 h2 hc)
    have : k u n = m := hpre m hm.1.le hlt hge
    rw [this]
    refine ⟨?_, hm.1.le, fun j hj => ⟨fun h => ?_, fun h => hlt j h⟩⟩
    · by_contra hc
      have : m = 0 := by omega
      exact hge 0 (by omega) hn h0
    · by_contra hc
      exact hge j (by omega) hj h

theorem tau_mul (u : ℕ → ℝ) (n : ℕ) (h : 0 < k u n) : (k u n : ℝ) * tau u n = css u (k u n - 1) := by
  have : (k u n : ℝ) ≠ 0 := by positivity
  rw [tau]
  field_simp

theorem total (u : ℕ → ℝ) (n : ℕ) (hn : 0 < n) (anti : ∀ i j, i ≤ j → j < n → u j ≤ u i) :
    ∑ j ∈ range n, w u n (u j) = 1 := by
  obtain ⟨hpos, hle, hiff⟩ := k_spec u n hn anti
  have ht := tau_mul u n hpos
  have hup : ∀ j, j < k u n → 0 ≤ u j - tau u n := by
    intro j hj
    have h1 := (hiff (k u n - 1) (by omega)).2 (by omega)
    have h2 := anti j (k u n - 1) (by omega) (by omega)
    unfold ok at h1
    have e : ((k u n - 1 : ℕ) : ℝ) + 1 = k u n := by
      rw [Nat.cast_sub (by omega)]; push_cast; ring
    rw [e, ← ht] at h1
    have hk : (0 : ℝ) < k u n := by exact_mod_cast hpos
    have := le_of_mul_le_mul_left h1 hk
    linarith
  have hdn : ∀ j, k u n ≤ j → j < n → ¬ 0 ≤ u j - tau u n := by
    intro j hj hjn
    have h1 : ¬ ok u (k u n) := fun c => by
      have := (hiff (k u n) (by omega)).1 c
      omega
    have h2 := anti (k u n) j hj hjn
    unfold ok css at h1
    have hs : css u (k u n - 1) = ∑ i ∈ range (k u n), u i - 1 := by
      rw [css, Nat.sub_add_cancel (by omega)]
    rw [sum_range_succ] at h1
    rw [hs] at ht
    have hk : (0 : ℝ) < k u n := by exact_mod_cast hpos
    push Not at h1
    have : (k u n : ℝ) * u (k u n) < k u n * tau u n := by nlinarith
    have := lt_of_mul_lt_mul_left this hk.le
    intro c
    linarith
  have hsplit : ∑ j ∈ range n, w u n (u j) = ∑ j ∈ range (k u n), (u j - tau u n) := by
    rw [← sum_subset (s₁ := range (k u n)) (range_subset_range.2 hle)]
    · refine sum_congr rfl fun j hj => ?_
      rw [mem_range] at hj
      rw [w, if_pos (hup j hj)]
    · intro j hj hnj
      rw [mem_range] at hj hnj
      rw [w, if_neg (hdn j (by omega) hj)]
  rw [hsplit, sum_sub_distrib, sum_const, card_range, nsmul_eq_mul, ht, css, Nat.sub_add_cancel (by omega)]
  ring

/-- C19: the result lies in the simplex and is closest to x among all points of the simplex. -/
theorem closed_form_is_projection (n : ℕ) (hn : 0 < n) (x : Fin n → ℝ) (s : Equiv.Perm (Fin n)) (u : ℕ → ℝ)
    (hu : ∀ j : Fin n, u j = x (s j)) (anti : ∀ i j, i ≤ j → j < n → u j ≤ u i) :
    (∀ i, 0 ≤ w u n (x i)) ∧ ∑ i, w u n (x i) = 1 ∧
      ∀ y : Fin n → ℝ, (∀ i, 0 ≤ y i) → ∑ i, y i = 1 → ∑ i, (x i - w u n (x i)) ^ 2 ≤ ∑ i, (x i - y i) ^ 2 := by
  have hnn : ∀ e, 0 ≤ w u n e := by
    intro e
    rw [w]
    split <;> simp_all
  have hsum : ∑ i, w u n (x i) = 1 := by
    rw [← Equiv.sum_comp s (fun i => w u n (x i)), ← total u n hn anti, ← Fin.sum_univ_eq_sum_range (fun j => w u n (u j))]
    exact sum_congr rfl fun j _ => by rw [hu]
  refine ⟨fun i => hnn _, hsum, fun y hy hys => ?_⟩
  have key : ∀ i, (x i - w u n (x i)) ^ 2 + 2 * tau u n * (w u n (x i) - y i) ≤ (x i - y i) ^ 2 := by
    intro i
    rw [w]
    split
    · nlinarith [sq_nonneg (x i - tau u n - y i)]
    · rename_i h
      push Not at h
      nlinarith [sq_nonneg (y i), hy i]
  have := sum_le_sum fun i (_ : i ∈ univ) => key i
  rw [sum_add_distrib, ← mul_sum, sum_sub_distrib, hsum, hys] at this
  linarith

end Sparsemax
#print axioms Sparsemax.closed_form_is_projection
