import Mathlib
/-! Projective dependency trees: the span recursion of contracts/c03.py sums over all of them, once each. -/
open Finset

namespace Eisner
variable {R : Type*} [CommSemiring R]

/-- (head, dependent) -/
abbrev Arc := ℤ × ℤ

/-- `w` is a descendant of `h` (or `h` itself). -/
def Reach (A : Finset Arc) : ℤ → ℤ → Prop := Relation.ReflTransGen fun h w => (h, w) ∈ A

/-- `A` is a projective dependency tree over the nodes `i..j` with root `r`: every node but the root has one head, all nodes
are descendants of the root, and the nodes between a head and its dependent are descendants of the head. -/
structure Tree (A : Finset Arc) (i j r : ℤ) : Prop where
  range : ∀ h w, (h, w) ∈ A → i ≤ h ∧ h ≤ j ∧ i ≤ w ∧ w ≤ j ∧ w ≠ r
  unique : ∀ h h' w, (h, w) ∈ A → (h', w) ∈ A → h = h'
  reach : ∀ w, i ≤ w → w ≤ j → Reach A r w
  proj : ∀ h w x, (h, w) ∈ A → (h < x ∧ x < w ∨ w < x ∧ x < h) → Reach A h x

theorem Reach.mono {A B : Finset Arc} (hAB : A ⊆ B) {x y : ℤ} (h : Reach A x y) : Reach B x y :=
  Relation.ReflTransGen.mono (fun _ _ e => hAB e) _ _ h

theorem Reach.up {A : Finset Arc} {i j r : ℤ} (T : Tree A i j r) {h y w : ℤ} (e : (y, w) ∈ A) (p : Reach A h w) :
    h = w ∨ Reach A h y := by
  cases p with
  | refl => exact Or.inl rfl
  | tail q e' =>
    rw [T.unique _ _ _ e e']
    exact Or.inr q

theorem Reach.root {A : Finset Arc} {i j r : ℤ} (T : Tree A i j r) {h : ℤ} (p : Reach A h r) : h = r := by
  cases p with
  | refl => rfl
  | tail q e' => exact absurd rfl (T.range _ _ e').2.2.2.2

/-- The arcs into the nodes `a..b` except `s`. -/
def sub (A : Finset Arc) (a b s : ℤ) : Finset Arc := A.filter fun e => a ≤ e.2 ∧ e.2 ≤ b ∧ e.2 ≠ s

theorem mem_sub {A : Finset Arc} {a b s h w : ℤ} : (h, w) ∈ sub A a b s ↔ (h, w) ∈ A ∧ a ≤ w ∧ w ≤ b ∧ w ≠ s := by
  simp [sub]

theorem restrict {A : Finset Arc} {i j r a b s : ℤ} (T : Tree A i j r)
    (ha : i ≤ a) (hb : b ≤ j)
    (closed : ∀ h w, (h, w) ∈ A → a ≤ w → w ≤ b → w ≠ s → a ≤ h ∧ h ≤ b)
    (hr : a ≤ r → r ≤ b → r = s)
    (c3 : ∀ h, a ≤ h → h ≤ b → Reach A h s → h = s) : Tree (sub A a b s) a b s where
  range h w e := by
    rw [mem_sub] at e
    have := closed h w e.1 e.2.1 e.2.2.1 e.2.2.2
    exact ⟨this.1, this.2, e.2.1, e.2.2.1, e.2.2.2⟩
  unique h h' w e e' := T.unique h h' w (mem_sub.1 e).1 (mem_sub.1 e').1
  reach w h1 h2 := by
    have p := T.reach w (by omega) (by omega)
    induction p with
    | refl => rw [hr h1 h2]; exact Relation.ReflTransGen.refl
    | @tail y w _ e ih =>
      by_cases hw : w = s
      · rw [hw]; exact Relation.ReflTransGen.refl
      · have := closed y w e h1 h2 hw
        exact (ih this.1 this.2).tail (mem_sub.2 ⟨e, h1, h2, hw⟩)
  proj h w x e hx := by
    rw [mem_sub] at e
    have hh := closed h w e.1 e.2.1 e.2.2.1 e.2.2.2
    have p := T.proj h w x e.1 hx
    have h1 : a ≤ x := by omega
    have h2 : x ≤ b := by omega
    clear hx
    induction p with
    | refl => exact Relation.ReflTransGen.refl
    | @tail y x q e' ih =>
      by_cases hw : x = s
      · have := c3 h hh.1 hh.2 (hw ▸ q.tail e')
        rw [hw, this]; exact Relation.ReflTransGen.refl
      · have := closed y x e' h1 h2 hw
        exact (ih this.1 this.2).tail (mem_sub.2 ⟨e', h1, h2, hw⟩)

/-! ### Splitting at the last dependent of a left root -/

def IsLast (A : Finset Arc) (i m : ℤ) : Prop := (i, m) ∈ A ∧ ∀ m', (i, m') ∈ A → m' ≤ m

noncomputable def last (A : Finset Arc) (i : ℤ) : ℤ := Classical.epsilon (IsLast A i)

theorem last_eq {A : Finset Arc} {i m : ℤ} (h : IsLast A i m) : last A i = m := by
  have h' : IsLast A i (last A i) := Classical.epsilon_spec ⟨m, h⟩
  exact le_antisymm (h.2 _ h'.1) (h'.2 _ h.1)

theorem exists_last {A : Finset Arc} {i j : ℤ} (T : Tree A i j i) (hij : i < j) : ∃ m, IsLast A i m := by
  have hne : ((A.filter fun e => e.1 = i)).Nonempty := by
    have p := T.reach j (by omega) le_rfl
    rcases Relation.ReflTransGen.cases_head p with h | ⟨c, h, _⟩
    · omega
    · exact ⟨(i, c), by simpa using h⟩
  obtain ⟨⟨h, m⟩, hm, hmax⟩ := Finset.exists_max_image _ Prod.snd hne
  simp only [mem_filter] at hm hmax
  obtain ⟨e, rfl⟩ := hm
  exact ⟨m, e, fun m' e' => hmax (h, m') ⟨e', rfl⟩⟩

theorem join {A B : Finset Arc} {i m j : ℤ} (hi : i < m) (hj : m ≤ j) (TA : Tree A i m i) (TB : Tree B m j m) :
    Tree (A ∪ B) i j i where
  range h w e := by
    rcases mem_union.1 e with e | e
    · have := TA.range _ _ e; omega
    · have := TB.range _ _ e; omega
  unique h h' w e e' := by
    rcases mem_union.1 e with e | e <;> rcases mem_union.1 e' with e' | e'
    · exact TA.unique _ _ _ e e'
    · have := TA.range _ _ e; have := TB.range _ _ e'; omega
    · have := TB.range _ _ e; have := TA.range _ _ e'; omega
    · exact TB.unique _ _ _ e e'
  reach w h1 h2 := by
    have hA : ∀ {x y}, Reach A x y → Reach (A ∪ B) x y := fun p => p.mono subset_union_left
    have hB : ∀ {x y}, Reach B x y → Reach (A ∪ B) x y := fun p => p.mono subset_union_right
    by_cases hw : w ≤ m
    · exact hA (TA.reach w h1 hw)
    · exact (hA (TA.reach m (by omega) le_rfl)).trans (hB (TB.reach w (by omega) h2))
  proj h w x e hx := by
    rcases mem_union.1 e with e | e
    · exact (TA.proj h w x e hx).mono subset_union_left
    · exact (TB.proj h w x e hx).mono subset_union_right

theorem join_last {A B : Finset Arc} {i m j : ℤ} (hi : i < m) (TA : Tree A i m i) (TB : Tree B m j m)
    (e : (i, m) ∈ A) : IsLast (A ∪ B) i m := by
  refine ⟨mem_union_left _ e, fun m' e' => ?_⟩
  rcases mem_union.1 e' with e' | e'
  · exact (TA.range _ _ e').2.2.2.1
  · have := TB.range _ _ e'; omega

theorem join_left {A B : Finset Arc} {i m j : ℤ} (TA : Tree A i m i) (TB : Tree B m j m) : sub (A ∪ B) i m i = A := by
  ext ⟨h, w⟩
  rw [mem_sub, mem_union]
  constructor
  · rintro ⟨e | e, hw⟩
    · exact e
    · have := TB.range _ _ e; omega
  · intro e
    have := TA.range _ _ e
    exact ⟨Or.inl e, by omega⟩

theorem join_right {A B : Finset Arc} {i m j : ℤ} (TA : Tree A i m i) (TB : Tree B m j m) : sub (A ∪ B) m j m = B := by
  ext ⟨h, w⟩
  rw [mem_sub, mem_union]
  constructor
  · rintro ⟨e | e, hw⟩
    · have := TA.range _ _ e; omega
    · exact e
  · intro e
    have := TB.range _ _ e
    exact ⟨Or.inr e, by omega⟩

section split
variable {A : Finset Arc} {i j m : ℤ}

theorem split_bounds (T : Tree A i j i) (hm : IsLast A i m) : i < m ∧ m ≤ j := by
  have := T.range _ _ hm.1; omega

theorem split_le (T : Tree A i j i) (hm : IsLast A i m) {h w : ℤ} (e : (h, w) ∈ A) (hw : w ≤ m) : h ≤ m := by
  have hb := split_bounds T hm
  by_contra hc
  have hwm : w ≠ m := by
    rintro rfl
    have := T.unique _ _ _ e hm.1; omega
  rcases Reach.up T hm.1 (T.proj h w m e (by omega)) with h1 | h1
  · omega
  · have := Reach.root T h1; omega

theorem split_ge (T : Tree A i j i) (hm : IsLast A i m) {h w : ℤ} (e : (h, w) ∈ A) (hw : m < w) : m ≤ h := by
  have hb := split_bounds T hm
  by_contra hc
  rcases Reach.up T hm.1 (T.proj h w m e (by omega)) with h1 | h1
  · omega
  · have := Reach.root T h1
    subst this
    have := hm.2 _ e; omega

theorem split_left (T : Tree A i j i) (hm : IsLast A i m) : Tree (sub A i m i) i m i := by
  have hb := split_bounds T hm
  refine restrict T le_rfl hb.2 (fun h w e h1 h2 _ => ⟨(T.range _ _ e).1, split_le T hm e h2⟩)
    (fun _ _ => rfl) (fun h _ _ p => Reach.root T p)

theorem split_right (T : Tree A i j i) (hm : IsLast A i m) : Tree (sub A m j m) m j m := by
  have hb := split_bounds T hm
  refine restrict T hb.1.le le_rfl
    (fun h w e h1 h2 h3 => ⟨split_ge T hm e (by omega), (T.range _ _ e).2.1⟩) (fun h _ => by omega) (fun h h1 _ p => ?_)
  rcases Reach.up T hm.1 p with h2 | h2
  · exact h2
  · have := Reach.root T h2; omega

theorem split_union (T : Tree A i j i) (hm : IsLast A i m) : sub A i m i ∪ sub A m j m = A := by
  have hb := split_bounds T hm
  ext ⟨h, w⟩
  rw [mem_union, mem_sub, mem_sub]
  constructor
  · rintro (e | e) <;> exact e.1
  · intro e
    have := T.range _ _ e
    by_cases hw : w ≤ m
    · exact Or.inl ⟨e, by omega⟩
    · exact Or.inr ⟨e, by omega⟩

end split

/-! ### Splitting below the arc that spans the whole interval -/

def IsFirst (A : Finset Arc) (m t : ℤ) : Prop := Reach A m t ∧ ∀ x, Reach A m x → t ≤ x

noncomputable def first (A : Finset Arc) (m : ℤ) : ℤ := Classical.epsilon (IsFirst A m)

theorem first_eq {A : Finset Arc} {m t : ℤ} (h : IsFirst A m t) : first A m = t := by
  have h' : IsFirst A m (first A m) := Classical.epsilon_spec ⟨t, h⟩
  exact le_antisymm (h'.2 _ h.1) (h.2 _ h'.1)

theorem hook {A B : Finset Arc} {i t m : ℤ} (hi : i < t) (hm : t ≤ m) (TA : Tree A i (t - 1) i) (TB : Tree B t m m) :
    Tree (insert (i, m) (A ∪ B)) i m i := by
  have hA : ∀ {x y}, Reach A x y → Reach (insert (i, m) (A ∪ B)) x y :=
    fun p => p.mono (subset_union_left.trans (subset_insert _ _))
  have hB : ∀ {x y}, Reach B x y → Reach (insert (i, m) (A ∪ B)) x y :=
    fun p => p.mono (subset_union_right.trans (subset_insert _ _))
  have hr : ∀ w, i ≤ w → w ≤ m → Reach (insert (i, m) (A ∪ B)) i w := by
    intro w h1 h2
    by_cases hw : w ≤ t - 1
    · exact hA (TA.reach w h1 hw)
    · exact Relation.ReflTransGen.head (mem_insert_self _ _) (hB (TB.reach w (by omega) h2))
  have hc : ∀ h w, (h, w) ∈ insert (i, m) (A ∪ B) → (h = i ∧ w = m) ∨ (h, w) ∈ A ∨ (h, w) ∈ B := by
    intro h w e
    simpa [mem_insert, mem_union, Prod.ext_iff] using e
  refine ⟨fun h w e => ?_, fun h h' w e e' => ?_, hr, fun h w x e hx => ?_⟩
  · rcases hc h w e with e | e | e
    · omega
    · have := TA.range _ _ e; omega
    · have := TB.range _ _ e; omega
  · rcases hc h w e with e | e | e <;> rcases hc h' w e' with e' | e' | e'
    · omega
    · have := TA.range _ _ e'; omega
    · have := TB.range _ _ e'; omega
    · have := TA.range _ _ e; omega
    · exact TA.unique _ _ _ e e'
    · have := TA.range _ _ e; have := TB.range _ _ e'; omega
    · have := TB.range _ _ e; omega
    · have := TB.range _ _ e; have := TA.range _ _ e'; omega
    · exact TB.unique _ _ _ e e'
  · rcases hc h w e with e | e | e
    · rw [e.1]; exact hr x (by omega) (by omega)
    · exact hA (TA.proj h w x e hx)
    · exact hB (TB.proj h w x e hx)

theorem hook_first {A B : Finset Arc} {i t m : ℤ} (hm : t ≤ m) (TA : Tree A i (t - 1) i) (TB : Tree B t m m) :
    IsFirst (insert (i, m) (A ∪ B)) m t := by
  refine ⟨(TB.reach t le_rfl hm).mono (subset_union_right.trans (subset_insert _ _)), fun x p => ?_⟩
  induction p with
  | refl => exact hm
  | @tail y x _ e ih =>
    rw [mem_insert, mem_union, Prod.ext_iff] at e
    rcases e with e | e | e
    · simp only at e; omega
    · have := TA.range _ _ e; omega
    · have := TB.range _ _ e; omega

theorem hook_left {A B : Finset Arc} {i t m : ℤ} (hm : t ≤ m) (TA : Tree A i (t - 1) i) (TB : Tree B t m m) :
    sub (insert (i, m) (A ∪ B)) i (t - 1) i = A := by
  ext ⟨h, w⟩
  rw [mem_sub, mem_insert, mem_union, Prod.ext_iff]
  constructor
  · rintro ⟨e | e | e, hw⟩
    · simp only at e; omega
    · exact e
    · have := TB.range _ _ e; omega
  · intro e
    have := TA.range _ _ e
    exact ⟨Or.inr (Or.inl e), by omega⟩

theorem hook_right {A B : Finset Arc} {i t m : ℤ} (TA : Tree A i (t - 1) i) (TB : Tree B t m m) :
    sub (insert (i, m) (A ∪ B)) t m m = B := by
  ext ⟨h, w⟩
  rw [mem_sub, mem_insert, mem_union, Prod.ext_iff]
  constructor
  · rintro ⟨e | e | e, hw⟩
    · simp only at e; omega
    · have := TA.range _ _ e; omega
    · exact e
  · intro e
    have := TB.range _ _ e
    exact ⟨Or.inr (Or.inr e), by omega⟩

section unhook
variable {A : Finset Arc} {i m t : ℤ}

theorem desc_range (T : Tree A i m i) {x : ℤ} (him : i < m) (p : Reach A m x) : i < x ∧ x ≤ m := by
  cases p with
  | refl => omega
  | tail q e => have := T.range _ _ e; omega

theorem exists_first (T : Tree A i m i) (him : i < m) : ∃ t, IsFirst A m t := by
  obtain ⟨t, h1, h2⟩ := Int.exists_least_of_bdd (P := fun x => Reach A m x) ⟨i, fun z p => (desc_range T him p).1.le⟩
    ⟨m, Relation.ReflTransGen.refl⟩
  exact ⟨t, h1, h2⟩

theorem desc_up (T : Tree A i m i) {x : ℤ} (p : Reach A m x) : ∀ y, x ≤ y → y ≤ m → Reach A m y := by
  induction p with
  | refl => intro y h1 h2; rw [le_antisymm h2 h1]; exact Relation.ReflTransGen.refl
  | @tail z x q e ih =>
    intro y h1 h2
    by_cases hz : z ≤ y
    · exact ih y hz h2
    · by_cases hx : x = y
      · rw [← hx]; exact q.tail e
      · exact q.trans (T.proj z x y e (by omega))

theorem first_bounds (T : Tree A i m i) (him : i < m) (ht : IsFirst A m t) : i < t ∧ t ≤ m := desc_range T him ht.1

theorem unhook_left (T : Tree A i m i) (him : i < m) (ht : IsFirst A m t) : Tree (sub A i (t - 1) i) i (t - 1) i := by
  have hb := first_bounds T him ht
  refine restrict T le_rfl (by omega) (fun h w e h1 h2 _ => ⟨(T.range _ _ e).1, ?_⟩)
    (fun _ _ => rfl) (fun h _ _ p => Reach.root T p)
  by_contra hc
  have q := desc_up T ht.1 h (by omega) (T.range _ _ e).2.1
  have := ht.2 w (q.tail e)
  omega

theorem unhook_right (T : Tree A i m i) (e0 : (i, m) ∈ A) (him : i < m) (ht : IsFirst A m t) : Tree (sub A t m m) t m m := by
  have hb := first_bounds T him ht
  refine restrict T hb.1.le le_rfl (fun h w e h1 h2 h3 => ⟨?_, (T.range _ _ e).2.1⟩)
    (fun h _ => by omega) (fun h h1 _ p => ?_)
  · have q := desc_up T ht.1 w h1 h2
    rcases Reach.up T e q with h4 | h4
    · omega
    · exact ht.2 _ h4
  · rcases Reach.up T e0 p with h2 | h2
    · exact h2
    · have := Reach.root T h2; omega

theorem unhook_union (T : Tree A i m i) (e0 : (i, m) ∈ A) (him : i < m) (ht : IsFirst A m t) :
    insert (i, m) (sub A i (t - 1) i ∪ sub A t m m) = A := by
  have hb := first_bounds T him ht
  ext ⟨h, w⟩
  rw [mem_insert, mem_union, mem_sub, mem_sub, Prod.ext_iff]
  constructor
  · rintro (⟨e, e'⟩ | e | e)
    · simp only at e e'; rw [e, e']; exact e0
    · exact e.1
    · exact e.1
  · intro e
    have := T.range _ _ e
    by_cases hm : w = m
    · left
      subst hm
      exact ⟨T.unique _ _ _ e e0, rfl⟩
    · right
      by_cases hw : w ≤ t - 1
      · exact Or.inl ⟨e, by omega⟩
      · exact Or.inr ⟨e, by omega⟩

end unhook

/-! ### Sums -/

open Classical in
/-- All projective trees over the nodes `i..j` with root `r`. -/
noncomputable def trees (i j r : ℤ) : Finset (Finset Arc) := ((Icc i j ×ˢ Icc i j).powerset).filter fun A => Tree A i j r

open Classical in
theorem mem_trees {A : Finset Arc} {i j r : ℤ} : A ∈ trees i j r ↔ Tree A i j r := by
  unfold trees
  rw [mem_filter, mem_powerset]
  refine ⟨fun h => h.2, fun h => ⟨fun ⟨a, b⟩ e => ?_, h⟩⟩
  have := h.range _ _ e
  simp only [mem_product, mem_Icc]
  omega

/-- Product of the arc scores. -/
def wt (arc : ℤ → ℤ → R) (A : Finset Arc) : R := ∏ e ∈ A, arc e.1 e.2

noncomputable def F (arc : ℤ → ℤ → R) (i j r : ℤ) : R := ∑ A ∈ trees i j r, wt arc A

/-- Trees with the arc that spans the interval. -/
noncomputable def G (arc : ℤ → ℤ → R) (i m : ℤ) : R := ∑ A ∈ (trees i m i).filter (fun A => (i, m) ∈ A), wt arc A

theorem sum_point (arc : ℤ → ℤ → R) (i : ℤ) : F arc i i i = 1 := by
  have : trees i i i = {∅} := by
    ext A
    rw [mem_trees, mem_singleton]
    constructor
    · intro T
      by_contra hne
      obtain ⟨⟨h, w⟩, e⟩ := Finset.nonempty_iff_ne_empty.2 hne
      have := T.range _ _ e; omega
    · rintro rfl
      refine ⟨fun h w e => by simp at e, fun h h' w e => by simp at e, fun w h1 h2 => ?_, fun h w x e => by simp at e⟩
      rw [le_antisymm h2 h1]; exact Relation.ReflTransGen.refl
  simp [F, this, wt]

theorem sum_split (arc : ℤ → ℤ → R) {i j : ℤ} (hij : i < j) :
    F arc i j i = ∑ m ∈ Ioc i j, G arc i m * F arc m j m := by
  simp only [F, G, sum_mul_sum]
  simp only [← sum_product']
  rw [sum_sigma']
  symm
  refine sum_nbij' (fun x => x.2.1 ∪ x.2.2) (fun A => ⟨last A i, sub A i (last A i) i, sub A (last A i) j (last A i)⟩)
    ?_ ?_ ?_ ?_ ?_
  · rintro ⟨m, A, B⟩ h
    simp only [mem_sigma, mem_Ioc, mem_product, mem_filter, mem_trees] at h
    exact mem_trees.2 (join h.1.1 h.1.2 h.2.1.1 h.2.2)
  · intro A hA
    have T := mem_trees.1 hA
    obtain ⟨m, hm⟩ := exists_last T hij
    have hb := split_bounds T hm
    simp only [last_eq hm, mem_sigma, mem_Ioc, mem_product, mem_filter, mem_trees]
    exact ⟨hb, ⟨split_left T hm, mem_sub.2 ⟨hm.1, by omega⟩⟩, split_right T hm⟩
  · rintro ⟨m, A, B⟩ h
    simp only [mem_sigma, mem_Ioc, mem_product, mem_filter, mem_trees] at h
    have hl := last_eq (join_last h.1.1 h.2.1.1 h.2.2 h.2.1.2)
    simp only [hl, join_left h.2.1.1 h.2.2, join_right h.2.1.1 h.2.2]
  · intro A hA
    have T := mem_trees.1 hA
    obtain ⟨m, hm⟩ := exists_last T hij
    simp only [last_eq hm]
    exact split_union T hm
  · rintro ⟨m, A, B⟩ h
    simp only [mem_sigma, mem_Ioc, mem_product, mem_filter, mem_trees] at h
    unfold wt
    rw [prod_union]
    rw [Finset.disjoint_left]
    rintro ⟨a, b⟩ e e'
    have := h.2.1.1.range _ _ e
    have := h.2.2.range _ _ e'
    omega

theorem sum_hook (arc : ℤ → ℤ → R) {i m : ℤ} (him : i < m) :
    G arc i m = (∑ t ∈ Ioc i m, F arc i (t - 1) i * F arc t m m) * arc i m := by
  simp only [F, G, sum_mul_sum]
  simp only [← sum_product']
  rw [sum_sigma', sum_mul]
  symm
  refine sum_nbij' (fun x => insert (i, m) (x.2.1 ∪ x.2.2)) (fun A => ⟨first A m, sub A i (first A m - 1) i, sub A (first A m) m m⟩)
    ?_ ?_ ?_ ?_ ?_
  · rintro ⟨t, A, B⟩ h
    simp only [mem_sigma, mem_Ioc, mem_product, mem_trees] at h
    exact mem_filter.2 ⟨mem_trees.2 (hook h.1.1 h.1.2 h.2.1 h.2.2), mem_insert_self _ _⟩
  · intro A hA
    rw [mem_filter, mem_trees] at hA
    obtain ⟨T, e0⟩ := hA
    obtain ⟨t, ht⟩ := exists_first T him
    have hb := first_bounds T him ht
    simp only [first_eq ht, mem_sigma, mem_Ioc, mem_product, mem_trees]
    exact ⟨hb, unhook_left T him ht, unhook_right T e0 him ht⟩
  · rintro ⟨t, A, B⟩ h
    simp only [mem_sigma, mem_Ioc, mem_product, mem_trees] at h
    have hl := first_eq (hook_first h.1.2 h.2.1 h.2.2)
    simp only [hl, hook_left h.1.2 h.2.1 h.2.2, hook_right h.2.1 h.2.2]
  · intro A hA
    rw [mem_filter, mem_trees] at hA
    obtain ⟨T, e0⟩ := hA
    obtain ⟨t, ht⟩ := exists_first T him
    simp only [first_eq ht]
    exact unhook_union T e0 him ht
  · rintro ⟨t, A, B⟩ h
    simp only [mem_sigma, mem_Ioc, mem_product, mem_trees] at h
    unfold wt
    rw [prod_insert, prod_union, mul_comm]
    · rw [Finset.disjoint_left]
      rintro ⟨a, b⟩ e e'
      have := h.2.1.range _ _ e
      have := h.2.2.range _ _ e'
      omega
    · rw [mem_union]
      rintro (e | e)
      · have := h.2.1.range _ _ e; omega
      · have := h.2.2.range _ _ e; omega

/-! ### Reflection -/

def flip (A : Finset Arc) : Finset Arc := A.image fun e => (-e.1, -e.2)

theorem mem_flip {A : Finset Arc} {h w : ℤ} : (h, w) ∈ flip A ↔ (-h, -w) ∈ A := by
  unfold flip
  rw [mem_image]
  constructor
  · rintro ⟨⟨a, b⟩, e, hab⟩
    rw [Prod.ext_iff] at hab
    simp only at hab
    rw [← hab.1, ← hab.2, neg_neg, neg_neg]; exact e
  · intro e
    exact ⟨(-h, -w), e, by simp⟩

theorem flip_flip (A : Finset Arc) : flip (flip A) = A := by
  ext ⟨h, w⟩
  rw [mem_flip, mem_flip, neg_neg, neg_neg]

theorem Reach.flip {A : Finset Arc} {x y : ℤ} (p : Reach A x y) : Reach (flip A) (-x) (-y) :=
  Relation.ReflTransGen.lift (r := fun h w => (h, w) ∈ A) (fun x => -x) (fun _ _ e => mem_flip.2 (by simpa using e)) _ _ p

theorem Tree.flip {A : Finset Arc} {i j r : ℤ} (T : Tree A i j r) : Tree (flip A) (-j) (-i) (-r) where
  range h w e := by have := T.range _ _ (mem_flip.1 e); omega
  unique h h' w e e' := by have := T.unique _ _ _ (mem_flip.1 e) (mem_flip.1 e'); omega
  reach w h1 h2 := by simpa using (T.reach (-w) (by omega) (by omega)).flip
  proj h w x e hx := by simpa using (T.proj (-h) (-w) (-x) (mem_flip.1 e) (by omega)).flip

def opp (arc : ℤ → ℤ → R) (h w : ℤ) : R := arc (-h) (-w)

theorem sum_flip (arc : ℤ → ℤ → R) (i j r : ℤ) : F arc i j r = F (opp arc) (-j) (-i) (-r) := by
  unfold F
  refine sum_nbij' flip flip (fun A h => mem_trees.2 (mem_trees.1 h).flip)
    (fun A h => mem_trees.2 (by simpa using (mem_trees.1 h).flip)) (fun A _ => flip_flip A) (fun A _ => flip_flip A) ?_
  intro A _
  unfold wt flip opp
  rw [prod_image]
  · simp
  · rintro ⟨a, b⟩ _ ⟨c, d⟩ _ e
    simpa using e

theorem sum_split' (arc : ℤ → ℤ → R) {i j : ℤ} (hij : i < j) :
    F arc i j j = ∑ m ∈ Ico i j, F arc i m m * ((∑ t ∈ Ioc m j, F arc m (t - 1) m * F arc t j j) * arc j m) := by
  rw [sum_flip, sum_split (opp arc) (by omega : -j < -i)]
  refine sum_nbij' (fun m => -m) (fun m => -m) ?_ ?_ (fun m _ => by simp) (fun m _ => by simp) ?_
  · intro m h; rw [mem_Ioc] at h; rw [mem_Ico]; omega
  · intro m h; rw [mem_Ico] at h; rw [mem_Ioc]; omega
  · intro m h
    rw [mem_Ioc] at h
    rw [sum_hook _ h.1, mul_comm, sum_flip arc i (-m) (-m), neg_neg]
    congr 1
    rw [opp]
    rw [neg_neg]
    congr 1
    refine sum_nbij' (fun t => 1 - t) (fun t => 1 - t) ?_ ?_ (fun m _ => by simp) (fun m _ => by simp) ?_
    · intro t h; rw [mem_Ioc] at h ⊢; omega
    · intro t h; rw [mem_Ioc] at h ⊢; omega
    · intro t _
      rw [sum_flip arc (-m) (1 - t - 1) (-m), sum_flip arc (1 - t) j j, mul_comm]
      congr 2 <;> ring

/-! ### Trees with a single dependent of the left root -/

open Classical in
theorem sum_single (arc : ℤ → ℤ → R) {i j : ℤ} (hij : i < j) :
    ∑ A ∈ (trees i j i).filter (fun A => ∃! m, (i, m) ∈ A), wt arc A
      = ∑ k ∈ Ioc i j, F arc (i + 1) k k * arc i k * F arc k j k := by
  have e0 : Tree ∅ i i i := by
    refine ⟨fun h w e => by simp at e, fun h h' w e => by simp at e, fun w h1 h2 => ?_, fun h w x e => by simp at e⟩
    rw [le_antisymm h2 h1]; exact Relation.ReflTransGen.refl
  have e1 : ∀ {k B}, i < k → Tree B (i + 1) k k → Tree (insert (i, k) B) i k i := by
    intro k B hk TB
    have := hook (A := ∅) (B := B) (i := i) (t := i + 1) (m := k) (by omega) (by omega) (by simpa using e0) TB
    rwa [empty_union] at this
  have e2 : ∀ k ∈ Ioc i j, F arc (i + 1) k k * arc i k * F arc k j k
      = ∑ x ∈ trees (i + 1) k k ×ˢ trees k j k, arc i k * (wt arc x.1 * wt arc x.2) := by
    intro k _
    rw [← mul_sum, sum_product, ← sum_mul_sum, F, F]
    ring
  rw [sum_congr rfl e2, sum_sigma']
  symm
  refine sum_nbij' (fun x => insert (i, x.1) x.2.1 ∪ x.2.2)
    (fun A => ⟨last A i, sub A (i + 1) (last A i) (last A i), sub A (last A i) j (last A i)⟩) ?_ ?_ ?_ ?_ ?_
  · rintro ⟨k, A, B⟩ h
    simp only [mem_sigma, mem_Ioc, mem_product, mem_trees] at h
    refine mem_filter.2 ⟨mem_trees.2 (join h.1.1 h.1.2 (e1 h.1.1 h.2.1) h.2.2), k, by simp, fun m e => ?_⟩
    simp only [mem_union, mem_insert, Prod.ext_iff] at e
    rcases e with (e | e) | e
    · exact e.2
    · have := h.2.1.range _ _ e; omega
    · have := h.2.2.range _ _ e; omega
  · intro A hA
    rw [mem_filter, mem_trees] at hA
    obtain ⟨T, k, hk, hu⟩ := hA
    have hm : IsLast A i k := ⟨hk, fun m' e => (hu m' e).le⟩
    have hb := split_bounds T hm
    simp only [last_eq hm, mem_sigma, mem_Ioc, mem_product, mem_trees]
    refine ⟨hb, ?_, split_right T hm⟩
    refine restrict T (by omega) hb.2 (fun h w e h1 h2 h3 => ⟨?_, split_le T hm e h2⟩) (fun h _ => by omega) (fun h h1 _ p => ?_)
    · have := T.range _ _ e
      have : h ≠ i := by rintro rfl; exact h3 (hu w e)
      omega
    · rcases Reach.up T hk p with h2 | h2
      · exact h2
      · have := Reach.root T h2; omega
  · rintro ⟨k, A, B⟩ h
    simp only [mem_sigma, mem_Ioc, mem_product, mem_trees] at h
    have hl := last_eq (join_last h.1.1 (e1 h.1.1 h.2.1) h.2.2 (mem_insert_self _ _))
    have h3 : sub (insert (i, k) A ∪ B) (i + 1) k k = A := by
      ext ⟨a, w⟩
      rw [mem_sub, mem_union, mem_insert, Prod.ext_iff]
      constructor
      · rintro ⟨(e | e) | e, hw⟩
        · simp only at e; omega
        · exact e
        · have := h.2.2.range _ _ e; omega
      · intro e
        have := h.2.1.range _ _ e
        exact ⟨Or.inl (Or.inr e), by omega⟩
    simp only [hl, h3, join_right (e1 h.1.1 h.2.1) h.2.2]
  · intro A hA
    rw [mem_filter, mem_trees] at hA
    obtain ⟨T, k, hk, hu⟩ := hA
    have hm : IsLast A i k := ⟨hk, fun m' e => (hu m' e).le⟩
    have hb := split_bounds T hm
    simp only [last_eq hm]
    ext ⟨h, w⟩
    rw [mem_union, mem_insert, mem_sub, mem_sub, Prod.ext_iff]
    constructor
    · rintro ((⟨e, e'⟩ | e) | e)
      · simp only at e e'; rw [e, e']; exact hk
      · exact e.1
      · exact e.1
    · intro e
      have := T.range _ _ e
      by_cases hw : w = k
      · subst hw
        exact Or.inl (Or.inl ⟨T.unique _ _ _ e hk, rfl⟩)
      · by_cases hw' : w ≤ k
        · exact Or.inl (Or.inr ⟨e, by omega⟩)
        · exact Or.inr ⟨e, by omega⟩
  · rintro ⟨k, A, B⟩ h
    simp only [mem_sigma, mem_Ioc, mem_product, mem_trees] at h
    unfold wt
    rw [prod_union, prod_insert]
    · ring
    · intro e
      have := h.2.1.range _ _ e; omega
    · rw [Finset.disjoint_left]
      rintro ⟨a, b⟩ e e'
      rw [mem_insert, Prod.ext_iff] at e
      have := h.2.2.range _ _ e'
      rcases e with e | e
      · simp only at e; omega
      · have := h.2.1.range _ _ e; omega

/-! ### The recursion of the contract -/

theorem sum_Ioc (i : ℤ) (d : ℕ) (f : ℤ → R) : ∑ m ∈ Ioc i (i + d), f m = ∑ k ∈ range d, f (i + k + 1) := by
  refine sum_nbij' (fun m => (m - i - 1).toNat) (fun k => i + k + 1) ?_ ?_ ?_ ?_ ?_
  · intro m h; rw [mem_Ioc] at h; rw [mem_range]; omega
  · intro k h; rw [mem_range] at h; rw [mem_Ioc]; omega
  · intro m h; rw [mem_Ioc] at h; omega
  · intro k h; omega
  · intro m h
    rw [mem_Ioc] at h
    congr 1; omega

theorem sum_Ico (i : ℤ) (d : ℕ) (f : ℤ → R) : ∑ m ∈ Ico i (i + d), f m = ∑ k ∈ range d, f (i + k) := by
  refine sum_nbij' (fun m => (m - i).toNat) (fun k => i + k) ?_ ?_ ?_ ?_ ?_
  · intro m h; rw [mem_Ico] at h; rw [mem_range]; omega
  · intro k h; rw [mem_range] at h; rw [mem_Ico]; omega
  · intro m h; rw [mem_Ico] at h; omega
  · intro k h; omega
  · intro m h
    rw [mem_Ico] at h
    congr 1; omega

/-- Four functions that satisfy the equations `UNFOLD` of contracts/c03.py. -/
structure Charts (arc CL CR IL IR : ℤ → ℤ → R) : Prop where
  il : ∀ i (d : ℕ), 0 < d → IL i (i + d) = (∑ k ∈ range d, CR i (i + k) * CL (i + k + 1) (i + d)) * arc (i + d) i
  ir : ∀ i (d : ℕ), 0 < d → IR i (i + d) = (∑ k ∈ range d, CR i (i + k) * CL (i + k + 1) (i + d)) * arc i (i + d)
  cl : ∀ i (d : ℕ), CL i (i + d) = if d = 0 then 1 else ∑ k ∈ range d, CL i (i + k) * IL (i + k) (i + d)
  cr : ∀ i (d : ℕ), CR i (i + d) = if d = 0 then 1 else ∑ k ∈ range d, IR i (i + k + 1) * CR (i + k + 1) (i + d)

theorem charts_are_sums {arc CL CR IL IR : ℤ → ℤ → R} (H : Charts arc CL CR IL IR) (d : ℕ) :
    ∀ i, CR i (i + d) = F arc i (i + d) i ∧ CL i (i + d) = F arc i (i + d) (i + d) := by
  induction d using Nat.strong_induction_on with
  | _ d ih =>
    have inner : ∀ (i : ℤ) (e : ℕ), e ≤ d → ∑ k ∈ range e, CR i (i + k) * CL (i + k + 1) (i + e)
        = ∑ t ∈ Ioc i (i + e), F arc i (t - 1) i * F arc t (i + e) (i + e) := by
      intro i e he
      rw [sum_Ioc]
      refine sum_congr rfl fun k hk => ?_
      rw [mem_range] at hk
      have e1 : i + (e : ℤ) = (i + k + 1) + ((e - k - 1 : ℕ) : ℤ) := by omega
      have e2 : i + (k : ℤ) + 1 - 1 = i + k := by ring
      rw [e2, (ih k (by omega) i).1, e1, (ih (e - k - 1) (by omega) (i + k + 1)).2]
    intro i
    rw [H.cr, H.cl]
    by_cases hd : d = 0
    · subst hd
      simp [sum_point]
    · rw [if_neg hd, if_neg hd]
      constructor
      · rw [sum_split arc (by omega), sum_Ioc]
        refine sum_congr rfl fun k hk => ?_
        rw [mem_range] at hk
        have e1 : i + (d : ℤ) = (i + k + 1) + ((d - k - 1 : ℕ) : ℤ) := by omega
        have e2 : i + (k : ℤ) + 1 = i + ((k + 1 : ℕ) : ℤ) := by push_cast; ring
        rw [e1, (ih (d - k - 1) (by omega) (i + k + 1)).1, sum_hook arc (by omega), e2, H.ir i (k + 1) (by omega),
          inner i (k + 1) (by omega)]
      · rw [sum_split' arc (by omega), sum_Ico]
        refine sum_congr rfl fun k hk => ?_
        rw [mem_range] at hk
        have e1 : i + (d : ℤ) = (i + k) + ((d - k : ℕ) : ℤ) := by omega
        rw [(ih k hk i).2, e1, H.il (i + k) (d - k) (by omega), inner (i + k) (d - k) (by omega)]

/-- Multi-root read-out: `CR(0, n)` is the sum over all projective trees over the words `1..n` hung below the root symbol 0. -/
theorem multi_root {arc CL CR IL IR : ℤ → ℤ → R} (H : Charts arc CL CR IL IR) (n : ℕ) :
    CR 0 n = ∑ A ∈ trees 0 n 0, ∏ e ∈ A, arc e.1 e.2 := by
  have := (charts_are_sums H n 0).1
  rw [zero_add] at this
  exact this

open Classical in
/-- Single-root read-out: the sum over the trees in which one word hangs below the root symbol. -/
theorem single_root {arc CL CR IL IR : ℤ → ℤ → R} (H : Charts arc CL CR IL IR) (n : ℕ) (hn : 0 < n) :
    ∑ k ∈ range n, CL 1 (k + 1) * arc 0 (k + 1) * CR (k + 1) n
      = ∑ A ∈ (trees 0 n 0).filter (fun A => ∃! m, (0, m) ∈ A), ∏ e ∈ A, arc e.1 e.2 := by
  have h := sum_single arc (i := 0) (j := n) (by omega)
  have h' := sum_Ioc 0 n (fun k => F arc (0 + 1) k k * arc 0 k * F arc k n k)
  rw [zero_add] at h'
  rw [h'] at h
  unfold wt at h
  rw [h]
  refine sum_congr rfl fun k hk => ?_
  rw [mem_range] at hk
  have h1 := (charts_are_sums H k 1).2
  have h2 := (charts_are_sums H (n - k - 1) (k + 1)).1
  have e1 : (1 : ℤ) + k = k + 1 := by ring
  have e2 : (k : ℤ) + 1 + ((n - k - 1 : ℕ) : ℤ) = n := by omega
  rw [e1] at h1
  rw [e2] at h2
  rw [h1, h2, zero_add, zero_add]

/-- With labels: an arc score that is a sum over labels is a sum over all labellings of the arcs. -/
theorem labels {L : Type*} [Fintype L] (f : ℤ → ℤ → L → R) (A : Finset Arc) :
    ∏ e ∈ A, ∑ l, f e.1 e.2 l = ∑ g ∈ Fintype.piFinset (fun _ : {e // e ∈ A} => (univ : Finset L)), ∏ e : {e // e ∈ A}, f e.1.1 e.1.2 (g e) := by
  rw [← Finset.prod_coe_sort, Finset.prod_univ_sum]

end Eisner

#print axioms Eisner.mem_trees
#print axioms Eisner.multi_root
#print axioms Eisner.single_root
#print axioms Eisner.labels
