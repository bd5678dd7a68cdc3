import Mathlib
/-! Linear chains: the scan recursion of contracts/chain.py sums over all label sequences. -/
open Finset

namespace Chain
variable {R : Type*} [CommSemiring R] {C : ℕ}

/-- `UNFOLD["T"]` of contracts/chain.py. -/
def T (leaf : ℕ → Matrix (Fin C) (Fin C) R) : ℕ → ℕ → Matrix (Fin C) (Fin C) R
  | 0, p => leaf p
  | k + 1, p => T leaf k (2 * p + 1) * T leaf k (2 * p)

/-- Product of `n` leaves from position `s` on, later positions on the left. -/
def run (leaf : ℕ → Matrix (Fin C) (Fin C) R) (s : ℕ) : ℕ → Matrix (Fin C) (Fin C) R
  | 0 => 1
  | n + 1 => leaf (s + n) * run leaf s n

theorem run_add (leaf : ℕ → Matrix (Fin C) (Fin C) R) (s m n : ℕ) :
    run leaf s (m + n) = run leaf (s + m) n * run leaf s m := by
  induction n with
  | zero => simp [run]
  | succ n ih => rw [← Nat.add_assoc]; simp only [run]; rw [ih, Matrix.mul_assoc, Nat.add_assoc]

theorem T_eq_run (leaf : ℕ → Matrix (Fin C) (Fin C) R) (k p : ℕ) : T leaf k p = run leaf (p * 2 ^ k) (2 ^ k) := by
  induction k generalizing p with
  | zero => simp [T, run]
  | succ k ih =>
    rw [T, ih, ih, pow_succ, mul_two, run_add]
    congr 2 <;> ring

/-- Identity matrices behind the length change nothing. -/
theorem run_pad (leaf : ℕ → Matrix (Fin C) (Fin C) R) (m n : ℕ) (h : ∀ t, m ≤ t → leaf t = 1) :
    run leaf 0 (m + n) = run leaf 0 m := by
  induction n with
  | zero => rfl
  | succ n ih => rw [← Nat.add_assoc]; simp only [run]; rw [ih, h _ (by omega), Matrix.one_mul]

theorem run_sum (leaf : ℕ → Matrix (Fin C) (Fin C) R) (n : ℕ) (g : Fin C → R) :
    ∑ i, g i * ∑ j, run leaf 0 n i j
      = ∑ z : Fin (n + 1) → Fin C, g (z (Fin.last n)) * ∏ t : Fin n, leaf t (z t.succ) (z t.castSucc) := by
  induction n generalizing g with
  | zero =>
    rw [← (Equiv.funUnique (Fin 1) (Fin C)).symm.sum_comp]
    refine sum_congr rfl fun i _ => ?_
    simp [run, Matrix.one_apply, Equiv.funUnique]
  | succ n ih =>
    have step : ∑ i, g i * ∑ j, run leaf 0 (n + 1) i j
        = ∑ i, ∑ c, (g i * leaf n i c) * ∑ j, run leaf 0 n c j := by
      refine sum_congr rfl fun i _ => ?_
      simp only [run, Matrix.mul_apply, Nat.zero_add]
      rw [sum_comm, mul_sum]
      refine sum_congr rfl fun c _ => ?_
      rw [← mul_sum, mul_assoc]
    rw [step]
    have h : ∀ i, ∑ c, (g i * leaf n i c) * ∑ j, run leaf 0 n c j
        = ∑ z : Fin (n + 1) → Fin C, (g i * leaf n i (z (Fin.last n))) * ∏ t : Fin n, leaf t (z t.succ) (z t.castSucc) :=
      fun i => ih (fun c => g i * leaf n i c)
    simp only [h]
    rw [← (Fin.snocEquiv (fun _ : Fin (n + 2) => Fin C)).sum_comp, Fintype.sum_prod_type]
    refine sum_congr rfl fun i _ => sum_congr rfl fun z _ => ?_
    simp only [Fin.snocEquiv, Equiv.coe_fn_mk, Fin.snoc_last, Fin.prod_univ_castSucc (n := n), Fin.succ_last,
      Fin.val_castSucc, Fin.val_last]
    have e : ∀ t : Fin n, Fin.snoc (α := fun _ => Fin C) z i t.castSucc.succ = z t.succ := by
      intro t
      rw [← Fin.castSucc_succ, Fin.snoc_castSucc]
    simp only [e, Fin.snoc_castSucc]
    ring

/-- The specification of C01 is the sum over the label sequences z_0 .. z_m (length m + 1) of the products of their edges. -/
theorem scan_is_enumeration (phi leaf : ℕ → Matrix (Fin C) (Fin C) R) (k m : ℕ) (hm : m ≤ 2 ^ k)
    (hin : ∀ t, t < m → leaf t = phi t) (hout : ∀ t, m ≤ t → leaf t = 1) :
    ∑ i, ∑ j, T leaf k 0 i j = ∑ z : Fin (m + 1) → Fin C, ∏ t : Fin m, phi t (z t.succ) (z t.castSucc) := by
  obtain ⟨d, hd⟩ := Nat.exists_eq_add_of_le hm
  have h := run_sum leaf m (fun _ => 1)
  simp only [one_mul] at h
  rw [T_eq_run, hd, Nat.zero_mul, run_pad leaf m d hout, h]
  exact sum_congr rfl fun z _ => prod_congr rfl fun t _ => by rw [hin t t.2]

end Chain
#print axioms Chain.scan_is_enumeration
