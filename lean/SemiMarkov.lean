import Mathlib
/-! Semi-Markov chains: the scan recursion of contracts/c02.py sums over all labelled segmentations. -/
open Finset

namespace SemiMarkov
variable {R : Type*} [CommSemiring R] {S : Type*} [Fintype S] [DecidableEq S]

/-- `UNFOLD["T"]` of contracts/c02.py, over an arbitrary state set. -/
def T (leaf : ℕ → Matrix S S R) : ℕ → ℕ → Matrix S S R
  | 0, p => leaf p
  | k + 1, p => T leaf k (2 * p + 1) * T leaf k (2 * p)

def run (leaf : ℕ → Matrix S S R) (s : ℕ) : ℕ → Matrix S S R
  | 0 => 1
  | n + 1 => leaf (s + n) * run leaf s n

theorem run_add (leaf : ℕ → Matrix S S R) (s m n : ℕ) :
    run leaf s (m + n) = run leaf (s + m) n * run leaf s m := by
  induction n with
  | zero => simp [run]
  | succ n ih => rw [← Nat.add_assoc]; simp only [run]; rw [ih, Matrix.mul_assoc, Nat.add_assoc]

theorem T_eq_run (leaf : ℕ → Matrix S S R) (k p : ℕ) : T leaf k p = run leaf (p * 2 ^ k) (2 ^ k) := by
  induction k generalizing p with
  | zero => simp [T, run]
  | succ k ih =>
    rw [T, ih, ih, pow_succ, mul_two, run_add]
    congr 2 <;> ring

variable {K C : ℕ}

/-- `leaf` of contracts/c02.py for an element whose last boundary is `m`: states are (remaining duration, label). -/
def leaf (phi : ℕ → ℕ → Fin C → Fin C → R) (m p : ℕ) : Matrix (Fin K × Fin C) (Fin K × Fin C) R := fun a b =>
  if b.1.val = 0 then
    if p < m then phi p (a.1 + 1) a.2 b.2 else if a.1.val = 0 ∧ a.2 = b.2 then 1 else 0
  else if a.1.val + 1 = b.1 ∧ a.2 = b.2 ∧ p + b.1 ≤ m then 1 else 0

/-- Segments (width - 1, label), the last one first. -/
abbrev Steps (K C : ℕ) := List (Fin K × Fin C)

def len : Steps K C → ℕ
  | [] => 0
  | (w, _) :: l => len l + (w + 1)

def lab (c0 : Fin C) : Steps K C → Fin C
  | [] => c0
  | (_, c) :: _ => c

/-- Product of potential[start, width, new label, previous label] over the segments. -/
def wt (phi : ℕ → ℕ → Fin C → Fin C → R) (c0 : Fin C) : Steps K C → R
  | [] => 1
  | (w, c) :: l => phi (len l) (w + 1) c (lab c0 l) * wt phi c0 l

/-- All segmentations that end at boundary `n` (see `mem_segs`). -/
def segs (K C : ℕ) (n : ℕ) : Finset (Steps K C) :=
  if n = 0 then {[]} else
    (univ : Finset (Fin K × Fin C)).biUnion fun a =>
      if h : a.1.val + 1 ≤ n then (segs K C (n - (a.1.val + 1))).image (List.cons a) else ∅
termination_by n
decreasing_by omega

theorem mem_segs (l : Steps K C) (n : ℕ) : l ∈ segs K C n ↔ len l = n := by
  induction l generalizing n with
  | nil =>
    rw [segs]
    by_cases h : n = 0
    · simp [h, len]
    · simp only [h, if_false, mem_biUnion, mem_univ, true_and, len]
      constructor
      · rintro ⟨a, ha⟩; split at ha <;> simp at ha
      · intro h'; exact absurd h'.symm h
  | cons a l ih =>
    rw [segs]
    by_cases h : n = 0
    · simp [h, len]
    · simp only [h, if_false, mem_biUnion, mem_univ, true_and, len]
      constructor
      · rintro ⟨b, hb⟩
        split at hb
        · rename_i hle
          rw [mem_image] at hb
          obtain ⟨l', hl', e⟩ := hb
          injection e with e1 e2
          subst e1 e2
          rw [ih] at hl'
          omega
        · simp at hb
      · intro hlen
        refine ⟨a, ?_⟩
        have hle : a.1.val + 1 ≤ n := by omega
        rw [dif_pos hle, mem_image]
        exact ⟨l, (ih _).2 (by omega), rfl⟩

theorem sum_segs {M : Type*} [AddCommMonoid M] (n : ℕ) (hn : n ≠ 0) (f : Steps K C → M) :
    ∑ l ∈ segs K C n, f l
      = ∑ w : Fin K, ∑ c : Fin C, if w.val + 1 ≤ n then ∑ l ∈ segs K C (n - (w.val + 1)), f ((w, c) :: l) else 0 := by
  rw [segs, if_neg hn, sum_biUnion, Fintype.sum_prod_type]
  · refine sum_congr rfl fun w _ => sum_congr rfl fun c _ => ?_
    by_cases h : w.val + 1 ≤ n
    · rw [dif_pos h, if_pos h, sum_image]
      intro x _ y _ e
      injection e
    · rw [dif_neg h, if_neg h, sum_empty]
  · intro a _ b _ hab
    simp only [Function.onFun]
    rw [Finset.disjoint_left]
    intro l ha hb
    split at ha
    · split at hb
      · rw [mem_image] at ha hb
        obtain ⟨x, _, rfl⟩ := ha
        obtain ⟨y, _, e⟩ := hb
        injection e with e1 e2
        exact hab e1.symm
      · simp at hb
    · simp at ha

/-- Sum over the segmentations ending at boundary `n` with label `i`. -/
def A (phi : ℕ → ℕ → Fin C → Fin C → R) (K : ℕ) (n : ℕ) (i : Fin C) : R :=
  ∑ c0, ∑ l ∈ segs K C n, if lab c0 l = i then wt phi c0 l else 0

theorem A_zero (phi : ℕ → ℕ → Fin C → Fin C → R) (i : Fin C) : A phi K 0 i = 1 := by
  have h : segs K C 0 = {[]} := by rw [segs]; rfl
  simp only [A, h, sum_singleton, lab, wt]
  rw [sum_eq_single i] <;> simp +contextual

theorem A_pick (phi : ℕ → ℕ → Fin C → Fin C → R) (n : ℕ) (g : Fin C → R) :
    ∑ c0, ∑ l ∈ segs K C n, g (lab c0 l) * wt phi c0 l = ∑ j, g j * A phi K n j := by
  have e : ∀ c0 : Fin C, ∀ l : Steps K C, g (lab c0 l) * wt phi c0 l
      = ∑ j, g j * (if lab c0 l = j then wt phi c0 l else 0) := by
    intro c0 l
    rw [sum_eq_single (lab c0 l)] <;> simp +contextual [eq_comm]
  simp only [e, A, mul_sum]
  rw [sum_comm]
  conv_rhs => rw [sum_comm]
  rw [sum_comm]
  refine sum_congr rfl fun c _ => ?_
  rw [sum_comm]

theorem A_succ (phi : ℕ → ℕ → Fin C → Fin C → R) (n : ℕ) (hn : n ≠ 0) (i : Fin C) :
    A phi K n i = ∑ w : Fin K, if w.val + 1 ≤ n then ∑ j, phi (n - (w.val + 1)) (w + 1) i j * A phi K (n - (w.val + 1)) j else 0 := by
  have e : ∀ c0 : Fin C, (∑ l ∈ segs K C n, if lab c0 l = i then wt phi c0 l else 0)
      = ∑ w : Fin K, if w.val + 1 ≤ n then ∑ l ∈ segs K C (n - (w.val + 1)), phi (n - (w.val + 1)) (w + 1) i (lab c0 l) * wt phi c0 l else 0 := by
    intro c0
    rw [sum_segs n hn]
    refine sum_congr rfl fun w _ => ?_
    rw [sum_eq_single i]
    · by_cases h : w.val + 1 ≤ n
      · simp only [h, if_true]
        refine sum_congr rfl fun l hl => ?_
        rw [mem_segs] at hl
        simp [lab, wt, hl]
      · simp [h]
    · intro c _ hc
      simp [lab, hc]
    · simp
  rw [A]
  simp only [e]
  rw [sum_comm]
  refine sum_congr rfl fun w _ => ?_
  by_cases h : w.val + 1 ≤ n
  · simp only [h, if_true]
    exact A_pick phi _ (fun j => phi (n - (w.val + 1)) (w + 1) i j)
  · simp [h]

/-- Segments that end `k` steps after position `n` and started before it. -/
def F (phi : ℕ → ℕ → Fin C → Fin C → R) (K : ℕ) (n k : ℕ) (i : Fin C) : R :=
  if n = 0 then (if k = 0 then 1 else 0) else
    ∑ d ∈ range n, if k + d < K then ∑ j, phi (n - (d + 1)) (k + d + 1) i j * A phi K (n - (d + 1)) j else 0

theorem F_zero (phi : ℕ → ℕ → Fin C → Fin C → R) (n : ℕ) (i : Fin C) : F phi K n 0 i = A phi K n i := by
  by_cases hn : n = 0
  · subst hn; simp [F, A_zero]
  · rw [F, if_neg hn, A_succ phi n hn]
    rw [Fin.sum_univ_eq_sum_range (fun d => if d + 1 ≤ n then ∑ j, phi (n - (d + 1)) (d + 1) i j * A phi K (n - (d + 1)) j else 0) K]
    simp only [Nat.zero_add]
    rw [← sum_filter, ← sum_filter]
    refine sum_congr ?_ fun _ _ => rfl
    ext d
    simp only [mem_filter, mem_range]
    omega

theorem F_succ (phi : ℕ → ℕ → Fin C → Fin C → R) (n k : ℕ) (hk : k < K) (i : Fin C) :
    F phi K (n + 1) k i = ∑ j, phi n (k + 1) i j * A phi K n j + F phi K n (k + 1) i := by
  rw [F, if_neg (by omega), sum_range_succ']
  simp only [Nat.add_zero, hk, if_true, Nat.add_sub_cancel]
  rw [add_comm]
  congr 1
  by_cases hn : n = 0
  · subst hn; simp [F]
  · rw [F, if_neg hn]
    refine sum_congr rfl fun d _ => ?_
    have e1 : n + 1 - (d + 1 + 1) = n - (d + 1) := by omega
    have e2 : k + (d + 1) = k + 1 + d := by omega
    rw [e1, e2]

theorem F_big (phi : ℕ → ℕ → Fin C → Fin C → R) (n : ℕ) (i : Fin C) (hK : 0 < K) : F phi K n K i = 0 := by
  rw [F]
  split
  · simp; omega
  · exact sum_eq_zero fun d _ => by rw [if_neg (by omega)]

/-- Row sums of the running product from duration-0 states. -/
def V (phi : ℕ → ℕ → Fin C → Fin C → R) (m n : ℕ) (a : Fin K × Fin C) (k0 : Fin K) : R :=
  ∑ j, run (leaf phi m) 0 n a (k0, j)

theorem V_succ (phi : ℕ → ℕ → Fin C → Fin C → R) (m n : ℕ) (a : Fin K × Fin C) (k0 : Fin K) :
    V phi m (n + 1) a k0 = ∑ b, leaf phi m n a b * V phi m n b k0 := by
  simp only [V, run, Matrix.mul_apply, Nat.zero_add, mul_sum]
  rw [sum_comm]

theorem V_eq (phi : ℕ → ℕ → Fin C → Fin C → R) (m n : ℕ) (k k0 : Fin K) (h0 : k0.val = 0) (i : Fin C) (h : n + k ≤ m) :
    V phi m n (k, i) k0 = F phi K n k i := by
  induction n generalizing k i with
  | zero =>
    simp only [V, run, Matrix.one_apply, Prod.mk.injEq]
    by_cases hk : k = k0
    · subst hk; simp [F, h0]
    · have : k.val ≠ 0 := fun e => hk (Fin.ext (by omega))
      simp [F, hk, this]
  | succ n ih =>
    rw [V_succ, Fintype.sum_prod_type, F_succ phi n k k.2]
    -- the row of duration 0 and the row of duration k + 1
    have hz : ∑ j, leaf phi m n (k, i) (k0, j) * V phi m n (k0, j) k0 = ∑ j, phi n (k + 1) i j * A phi K n j := by
      refine sum_congr rfl fun j _ => ?_
      rw [ih k0 j (by omega), h0, F_zero]
      simp [leaf, h0, show n < m by omega]
    rw [← hz, ← add_sum_erase univ _ (mem_univ k0)]
    congr 1
    by_cases hk : k.val + 1 < K
    · have hne : (⟨k + 1, hk⟩ : Fin K) ∈ univ.erase k0 := by simp [Fin.ext_iff, h0]
      rw [sum_eq_single_of_mem _ hne]
      · rw [sum_eq_single i]
        · rw [ih ⟨k + 1, hk⟩ i (by simp; omega)]
          simp [leaf, show n + (k.val + 1) ≤ m by omega]
        · intro j _ hj
          simp [leaf, hj.symm]
        · simp
      · intro b hb hne
        have hb0 : b.val ≠ 0 := fun e => by simp [Fin.ext_iff, h0, e] at hb
        refine sum_eq_zero fun j _ => ?_
        have : k.val + 1 ≠ b.val := fun e => hne (Fin.ext e.symm)
        simp [leaf, hb0, this]
    · have hK : k.val + 1 = K := by omega
      rw [hK, F_big phi n i (by omega)]
      refine sum_eq_zero fun b hb => sum_eq_zero fun j _ => ?_
      have hb0 : b.val ≠ 0 := fun e => by simp [Fin.ext_iff, h0, e] at hb
      have : k.val + 1 ≠ b.val := by omega
      simp [leaf, hb0, this]

theorem V_pad (phi : ℕ → ℕ → Fin C → Fin C → R) (m d : ℕ) (k0 : Fin K) (h0 : k0.val = 0) (i : Fin C) :
    V phi m (m + d) (k0, i) k0 = V phi m m (k0, i) k0 := by
  induction d with
  | zero => rfl
  | succ d ih =>
    rw [← ih, ← Nat.add_assoc, V_succ, sum_eq_single (k0, i)]
    · simp [leaf, h0]
    · rintro ⟨b, j⟩ _ hne
      by_cases hb : b.val = 0
      · have : b = k0 := Fin.ext (by omega)
        subst this
        have hj : i ≠ j := fun e => hne (by rw [e])
        simp [leaf, hb, hj]
      · have : ¬ (m + d + b.val ≤ m) := by omega
        simp [leaf, hb, this]
    · simp

/-- The specification of C02 is the sum over first labels and segmentations into widths 1 .. K of the boundary range 0 .. m. -/
theorem scan_is_enumeration (phi : ℕ → ℕ → Fin C → Fin C → R) (k m : ℕ) (hm : m ≤ 2 ^ k) (k0 : Fin K) (h0 : k0.val = 0) :
    ∑ i, ∑ j, T (leaf phi m) k 0 (k0, i) (k0, j) = ∑ c0, ∑ l ∈ segs K C m, wt phi c0 l := by
  obtain ⟨d, hd⟩ := Nat.exists_eq_add_of_le hm
  have h : ∀ i, ∑ j, T (leaf phi m) k 0 (k0, i) (k0, j) = A phi K m i := by
    intro i
    rw [T_eq_run, hd, Nat.zero_mul]
    have := V_pad phi m d k0 h0 i
    rw [V] at this
    rw [this, V_eq phi m m k0 k0 h0 i (by omega), h0, F_zero]
  simp only [h]
  have := A_pick (K := K) phi m (fun _ => 1)
  simp only [one_mul] at this
  exact this.symm

end SemiMarkov
#print axioms SemiMarkov.mem_segs
#print axioms SemiMarkov.scan_is_enumeration
