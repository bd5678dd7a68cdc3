import Mathlib
/-! Binary trees: the inside recursions of contracts/c04.py and contracts/c05.py sum over all labelled bracketings and over all
derivations. -/
open Finset

namespace Trees
variable {R : Type*} [CommSemiring R] {A L : Type} [Fintype A] [Fintype L] [DecidableEq A] [DecidableEq L]

/-- Binary trees with labels `A` at inner nodes and `L` at leaves. -/
inductive Tree (A L : Type)
  | leaf (x : L) : Tree A L
  | node (a : A) (l r : Tree A L) : Tree A L
deriving DecidableEq

open Trees.Tree

/-- Number of words. -/
def size : Tree A L → ℕ
  | leaf _ => 1
  | node _ l r => size l + size r

omit [Fintype A] [Fintype L] [DecidableEq A] [DecidableEq L] in
theorem size_pos (t : Tree A L) : 0 < size t := by
  induction t with
  | leaf => simp [size]
  | node a l r ihl _ => simp [size]; omega

/-- All trees over `n` words (see `mem_trees`). -/
def trees (A L : Type) [Fintype A] [Fintype L] [DecidableEq A] [DecidableEq L] (n : ℕ) : Finset (Tree A L) :=
  if n = 1 then univ.image leaf else
    (univ : Finset (Fin (n - 1))).biUnion fun k =>
      (univ ×ˢ trees A L (k.val + 1) ×ˢ trees A L (n - 1 - k.val)).image fun x => node x.1 x.2.1 x.2.2
termination_by n
decreasing_by
  all_goals have := k.2; omega

theorem mem_trees (t : Tree A L) (n : ℕ) : t ∈ trees A L n ↔ size t = n := by
  induction t generalizing n with
  | leaf x =>
    rw [trees]
    by_cases h : n = 1
    · simp [h, size]
    · simp only [h, if_false, mem_biUnion, mem_univ, true_and, mem_image, size]
      constructor
      · rintro ⟨_, _, _, e⟩; cases e
      · intro e; exact absurd e.symm h
  | node a l r ihl ihr =>
    rw [trees]
    have hl := size_pos l
    have hr := size_pos r
    by_cases h : n = 1
    · simp [h, size]; omega
    · simp only [h, if_false, mem_biUnion, mem_univ, true_and, mem_image, mem_product, size, Prod.exists]
      constructor
      · rintro ⟨k, b, l', r', ⟨hl', hr'⟩, e⟩
        cases e
        rw [ihl] at hl'
        rw [ihr] at hr'
        have := k.2
        omega
      · intro e
        exact ⟨⟨size l - 1, by omega⟩, a, l, r, ⟨(ihl _).2 (by simp; omega), (ihr _).2 (by simp; omega)⟩, rfl⟩

theorem sum_one {M : Type*} [AddCommMonoid M] (f : Tree A L → M) : ∑ t ∈ trees A L 1, f t = ∑ x : L, f (leaf x) := by
  rw [trees, if_pos rfl, sum_image]
  intro x _ y _ e
  cases e; rfl

theorem sum_trees {M : Type*} [AddCommMonoid M] (n : ℕ) (hn : n ≠ 1) (f : Tree A L → M) :
    ∑ t ∈ trees A L n, f t
      = ∑ k ∈ range (n - 1), ∑ a : A, ∑ l ∈ trees A L (k + 1), ∑ r ∈ trees A L (n - 1 - k), f (node a l r) := by
  rw [trees, if_neg hn, sum_biUnion]
  · rw [← Fin.sum_univ_eq_sum_range (fun k => ∑ a : A, ∑ l ∈ trees A L (k + 1), ∑ r ∈ trees A L (n - 1 - k), f (node a l r)) (n - 1)]
    refine sum_congr rfl fun k _ => ?_
    rw [sum_image, sum_product]
    · refine sum_congr rfl fun a _ => ?_
      rw [sum_product]
    · rintro ⟨a, l, r⟩ _ ⟨b, l', r'⟩ _ e
      cases e; rfl
  · intro k _ k' _ hk
    simp only [Function.onFun]
    rw [Finset.disjoint_left]
    intro t h h'
    simp only [mem_image, mem_product, mem_univ, true_and, Prod.exists] at h h'
    obtain ⟨a, l, r, ⟨hl, _⟩, rfl⟩ := h
    obtain ⟨b, l', r', ⟨hl', _⟩, e⟩ := h'
    cases e
    rw [mem_trees] at hl hl'
    exact hk (Fin.ext (by omega))

/-! ### Span trees (C04) -/
variable {NT T : ℕ}

/-- `UNFOLD["I"]` of contracts/c04.py. -/
def I (phi : ℕ → ℕ → Fin NT → R) (i j : ℕ) : R :=
  if i = j then ∑ a, phi i i a
  else (∑ k : Fin (j - i), I phi i (i + k) * I phi (i + k + 1) j) * ∑ a, phi i j a
termination_by j - i
decreasing_by
  all_goals have := k.2; omega

/-- Product of score[i, j, label] over the spans of a tree whose first word is `i`. -/
def spanWt (phi : ℕ → ℕ → Fin NT → R) : ℕ → Tree (Fin NT) (Fin NT) → R
  | i, leaf a => phi i i a
  | i, node a l r => spanWt phi i l * spanWt phi (i + size l) r * phi i (i + size l + size r - 1) a

theorem inside_is_enumeration (phi : ℕ → ℕ → Fin NT → R) (i d : ℕ) :
    I phi i (i + d) = ∑ t ∈ trees (Fin NT) (Fin NT) (d + 1), spanWt phi i t := by
  induction d using Nat.strong_induction_on generalizing i with
  | _ d ih =>
    rw [I]
    by_cases hd : d = 0
    · subst hd
      simp [sum_one, spanWt]
    · rw [if_neg (by omega), sum_trees (d + 1) (by omega), Fin.sum_univ_eq_sum_range (fun k => I phi i (i + k) * I phi (i + k + 1) (i + d))]
      have e0 : i + d - i = d + 1 - 1 := by omega
      rw [e0, sum_mul]
      refine sum_congr rfl fun k hk => ?_
      rw [mem_range] at hk
      have e1 : i + d = (i + k + 1) + (d - 1 - k) := by omega
      rw [ih k (by omega) i]
      conv_lhs => rw [show I phi (i + k + 1) (i + d) = I phi (i + k + 1) ((i + k + 1) + (d - 1 - k)) from by rw [← e1]]
      rw [ih (d - 1 - k) (by omega) (i + k + 1), mul_sum]
      refine sum_congr rfl fun a _ => ?_
      rw [sum_mul_sum, sum_mul]
      refine sum_congr rfl fun l hl => ?_
      have e2 : d - 1 - k + 1 = d + 1 - 1 - k := by omega
      rw [e2, sum_mul]
      refine sum_congr rfl fun r hr => ?_
      rw [mem_trees] at hl hr
      rw [spanWt, hl, hr, ← Nat.add_assoc, show i + k + 1 + (d + 1 - 1 - k) - 1 = i + d by omega]

/-! ### Context-free grammars (C05) -/

/-- Symbol of a node: nonterminal or preterminal. -/
def sym : Tree (Fin NT) (Fin T) → Fin NT ⊕ Fin T
  | leaf t => Sum.inr t
  | node a _ _ => Sum.inl a

theorem sym_node (a : Fin NT) (l r : Tree (Fin NT) (Fin T)) : sym (node a l r) = Sum.inl a := rfl

/-- Product of the rule scores of the inner nodes and the terminal scores of the leaves. -/
def cfgWt (te : ℕ → Fin T → R) (ru : Fin NT → Fin NT ⊕ Fin T → Fin NT ⊕ Fin T → R) : ℕ → Tree (Fin NT) (Fin T) → R
  | i, leaf t => te i t
  | i, node a l r => cfgWt te ru i l * cfgWt te ru (i + size l) r * ru a (sym l) (sym r)

/-- `UNFOLD["G"]` of contracts/c05.py. -/
def G (te : ℕ → Fin T → R) (ru : Fin NT → Fin NT ⊕ Fin T → Fin NT ⊕ Fin T → R) (i j : ℕ) (x : Fin NT) : R :=
  if _h : i < j then
    (∑ k : Fin (j - i), ∑ y, ∑ z, G te ru i (i + k) y * G te ru (i + k + 1) j z * ru x (Sum.inl y) (Sum.inl z))
    + (∑ y, ∑ z, G te ru i (j - 1) y * te j z * ru x (Sum.inl y) (Sum.inr z))
    + (∑ y, ∑ z, te i y * G te ru (i + 1) j z * ru x (Sum.inr y) (Sum.inl z))
    + (if j = i + 1 then ∑ y, ∑ z, te i y * te j z * ru x (Sum.inr y) (Sum.inr z) else 0)
  else 0
termination_by j - i
decreasing_by
  all_goals first | (have := k.2; omega) | omega

/-- Sum over the derivations of the words i .. i+d with the given root symbol. -/
def D (te : ℕ → Fin T → R) (ru : Fin NT → Fin NT ⊕ Fin T → Fin NT ⊕ Fin T → R) (i d : ℕ) (s : Fin NT ⊕ Fin T) : R :=
  ∑ t ∈ trees (Fin NT) (Fin T) (d + 1), if sym t = s then cfgWt te ru i t else 0

theorem D_leaf (te : ℕ → Fin T → R) (ru : Fin NT → Fin NT ⊕ Fin T → Fin NT ⊕ Fin T → R) (i d : ℕ) (z : Fin T) :
    D te ru i d (Sum.inr z) = if d = 0 then te i z else 0 := by
  rw [D]
  by_cases hd : d = 0
  · subst hd
    rw [Nat.zero_add, sum_one, if_pos rfl, sum_eq_single z] <;> simp +contextual [sym, cfgWt]
  · rw [if_neg hd, sum_trees _ (by omega)]
    simp [sym]

theorem D_zero (te : ℕ → Fin T → R) (ru : Fin NT → Fin NT ⊕ Fin T → Fin NT ⊕ Fin T → R) (i : ℕ) (x : Fin NT) :
    D te ru i 0 (Sum.inl x) = 0 := by
  rw [D, Nat.zero_add, sum_one]
  simp [sym]

theorem pick {S : Type*} [Fintype S] [DecidableEq S] {ι : Type*} (s : Finset ι) (f : ι → S) (g : S → R) (w : ι → R) :
    ∑ t ∈ s, w t * g (f t) = ∑ y, (∑ t ∈ s, if f t = y then w t else 0) * g y := by
  simp only [sum_mul]
  rw [sum_comm]
  refine sum_congr rfl fun t _ => ?_
  rw [sum_eq_single (f t)] <;> simp +contextual [eq_comm]

theorem D_node (te : ℕ → Fin T → R) (ru : Fin NT → Fin NT ⊕ Fin T → Fin NT ⊕ Fin T → R) (i d : ℕ) (hd : d ≠ 0) (x : Fin NT) :
    D te ru i d (Sum.inl x)
      = ∑ k ∈ range d, ∑ y, ∑ z, D te ru i k y * D te ru (i + k + 1) (d - 1 - k) z * ru x y z := by
  rw [D, sum_trees _ (by omega), Nat.add_sub_cancel]
  refine sum_congr rfl fun k hk => ?_
  rw [mem_range] at hk
  rw [sum_eq_single x]
  · simp only [sym_node, if_true, cfgWt]
    have e : ∀ l ∈ trees (Fin NT) (Fin T) (k + 1), (∑ r ∈ trees (Fin NT) (Fin T) (d - k), cfgWt te ru i l * cfgWt te ru (i + size l) r * ru x (sym l) (sym r))
        = cfgWt te ru i l * ∑ z, D te ru (i + k + 1) (d - 1 - k) z * ru x (sym l) z := by
      intro l hl
      rw [mem_trees] at hl
      have e2 : d - k = d - 1 - k + 1 := by omega
      simp only [D]
      rw [← e2, ← pick _ sym (fun z => ru x (sym l) z), mul_sum]
      refine sum_congr rfl fun r _ => ?_
      rw [hl, ← Nat.add_assoc]
      ring
    rw [sum_congr rfl e, pick _ sym (fun y => ∑ z, D te ru (i + k + 1) (d - 1 - k) z * ru x y z)]
    refine sum_congr rfl fun y _ => ?_
    rw [mul_sum]
    refine sum_congr rfl fun z _ => ?_
    change D te ru i k y * (D te ru (i + k + 1) (d - 1 - k) z * ru x y z) = _
    ring
  · intro a _ ha
    simp [sym, ha]
  · simp

/-- The specification of C05: G is the sum over the derivations of words i .. i+d rooted in x. -/
theorem grammar_is_enumeration (te : ℕ → Fin T → R) (ru : Fin NT → Fin NT ⊕ Fin T → Fin NT ⊕ Fin T → R) (i d : ℕ) (x : Fin NT) :
    G te ru i (i + d) x = D te ru i d (Sum.inl x) := by
  induction d using Nat.strong_induction_on generalizing i x with
  | _ d ih =>
    rw [G]
    by_cases hd : d = 0
    · subst hd
      simp [D_zero]
    · rw [dif_pos (by omega), D_node te ru i d hd]
      rw [Fin.sum_univ_eq_sum_range (fun k => ∑ y, ∑ z, G te ru i (i + k) y * G te ru (i + k + 1) (i + d) z * ru x (Sum.inl y) (Sum.inl z))]
      simp only [Fintype.sum_sum_type, sum_add_distrib, D_leaf]
      rw [show i + d - i = d by omega]
      have hr : ∀ k, k < d → ∀ z, G te ru (i + k + 1) (i + d) z = D te ru (i + k + 1) (d - 1 - k) (Sum.inl z) := by
        intro k hk z
        rw [← ih (d - 1 - k) (by omega) (i + k + 1) z]
        congr 1; omega
      have LL : ∑ k ∈ range d, ∑ y, ∑ z, G te ru i (i + k) y * G te ru (i + k + 1) (i + d) z * ru x (Sum.inl y) (Sum.inl z)
          = ∑ k ∈ range d, ∑ y, ∑ z, D te ru i k (Sum.inl y) * D te ru (i + k + 1) (d - 1 - k) (Sum.inl z) * ru x (Sum.inl y) (Sum.inl z) := by
        refine sum_congr rfl fun k hk => sum_congr rfl fun y _ => sum_congr rfl fun z _ => ?_
        rw [mem_range] at hk
        rw [ih k hk, hr k hk]
      have LR : ∑ y, ∑ z, G te ru i (i + d - 1) y * te (i + d) z * ru x (Sum.inl y) (Sum.inr z)
          = ∑ k ∈ range d, ∑ y, ∑ z, D te ru i k (Sum.inl y) * (if d - 1 - k = 0 then te (i + k + 1) z else 0) * ru x (Sum.inl y) (Sum.inr z) := by
        rw [sum_eq_single (d - 1)]
        · refine sum_congr rfl fun y _ => sum_congr rfl fun z _ => ?_
          rw [← ih (d - 1) (by omega), show i + (d - 1) = i + d - 1 by omega, if_pos (by omega), show i + d - 1 + 1 = i + d by omega]
        · intro k hk hne
          rw [mem_range] at hk
          have : ¬ (d - 1 - k = 0) := by omega
          simp [this]
        · intro h
          exact absurd (mem_range.2 (by omega)) h
      have RL : ∑ y, ∑ z, te i y * G te ru (i + 1) (i + d) z * ru x (Sum.inr y) (Sum.inl z)
          = ∑ k ∈ range d, ∑ y, ∑ z, (if k = 0 then te i y else 0) * D te ru (i + k + 1) (d - 1 - k) (Sum.inl z) * ru x (Sum.inr y) (Sum.inl z) := by
        symm
        rw [sum_eq_single (0 : ℕ)]
        · refine sum_congr rfl fun y _ => sum_congr rfl fun z _ => ?_
          rw [← hr 0 (by omega)]
          simp
        · intro k _ hne
          simp [hne]
        · intro h
          exact absurd (mem_range.2 (by omega)) h
      have RR : (if i + d = i + 1 then ∑ y, ∑ z, te i y * te (i + d) z * ru x (Sum.inr y) (Sum.inr z) else 0)
          = ∑ k ∈ range d, ∑ y, ∑ z, (if k = 0 then te i y else 0) * (if d - 1 - k = 0 then te (i + k + 1) z else 0) * ru x (Sum.inr y) (Sum.inr z) := by
        symm
        rw [sum_eq_single (0 : ℕ)]
        · by_cases h1 : d = 1
          · subst h1; simp
          · have h2 : ¬ (d - 1 - 0 = 0) := by omega
            have h3 : ¬ (i + d = i + 1) := by omega
            simp only [h2, h3, if_false, if_true, mul_zero, zero_mul, sum_const_zero]
        · intro k _ hne
          simp [hne]
        · intro h
          exact absurd (mem_range.2 (by omega)) h
      rw [LL, LR, RL, RR]
      ring
end Trees
#print axioms Trees.mem_trees
#print axioms Trees.inside_is_enumeration
#print axioms Trees.grammar_is_enumeration
