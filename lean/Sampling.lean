/-
Ancestral sampling in a sum-product circuit.  The forward pass of a sampling semiring evaluates the circuit; its backward
pass enters one alternative of every sum it reaches, with probability proportional to the value of the alternative, and both
factors of every product.  The collection of leaves it reaches is then a structure of the circuit (an alternative per sum),
drawn with probability weight / total weight.
-/
import Mathlib

namespace Sampling

inductive Circuit (P : Type) where
  | leaf (p : P) : Circuit P
  | one : Circuit P
  | plus (n : ℕ) (f : Fin (n + 1) → Circuit P) : Circuit P
  | times (a b : Circuit P) : Circuit P

variable {P : Type}

/-- the structures: the leaves reached when one alternative of each sum is chosen -/
def structs : Circuit P → List (List P)
  | .leaf p => [[p]]
  | .one => [[]]
  | .plus n f => (List.finRange (n + 1)).flatMap fun i => structs (f i)
  | .times a b => (structs a).flatMap fun x => (structs b).map fun y => x ++ y

/-- the forward pass -/
noncomputable def val (w : P → ℝ) : Circuit P → ℝ
  | .leaf p => w p
  | .one => 1
  | .plus n f => ∑ i : Fin (n + 1), val w (f i)
  | .times a b => val w a * val w b

/-- weight of a structure -/
noncomputable def weight (w : P → ℝ) (s : List P) : ℝ := (s.map w).prod

/-- expectation of g over the structure the backward pass selects -/
noncomputable def expect (w : P → ℝ) : Circuit P → (List P → ℝ) → ℝ
  | .leaf p, g => g [p]
  | .one, g => g []
  | .plus n f, g => ∑ i : Fin (n + 1), val w (f i) / (∑ j : Fin (n + 1), val w (f j)) * expect w (f i) g
  | .times a b, g => expect w a fun x => expect w b fun y => g (x ++ y)

theorem val_pos (w : P → ℝ) (hw : ∀ p, 0 < w p) (c : Circuit P) : 0 < val w c := by
  induction c with
  | leaf p => exact hw p
  | one => exact one_pos
  | plus n f ih => exact Finset.sum_pos (fun i _ => ih i) Finset.univ_nonempty
  | times a b iha ihb => exact mul_pos iha ihb

theorem sum_flatMap {α β : Type} (l : List α) (f : α → List β) (g : β → ℝ) :
    ((l.flatMap f).map g).sum = (l.map fun a => ((f a).map g).sum).sum := by
  induction l with
  | nil => simp
  | cons a l ih => simp [ih]

theorem sum_finRange (n : ℕ) (f : Fin n → ℝ) : ((List.finRange n).map f).sum = ∑ i, f i := by
  rw [← List.ofFn_eq_map, List.sum_ofFn]

theorem weight_append (w : P → ℝ) (x y : List P) : weight w (x ++ y) = weight w x * weight w y := by
  simp [weight]

/-- value times expectation is the weighted sum over the structures -/
theorem val_mul_expect (w : P → ℝ) (hw : ∀ p, 0 < w p) (c : Circuit P) (g : List P → ℝ) :
    val w c * expect w c g = ((structs c).map fun s => weight w s * g s).sum := by
  induction c generalizing g with
  | leaf p => simp [val, expect, structs, weight]
  | one => simp [val, expect, structs, weight]
  | plus n f ih =>
    have hpos : 0 < ∑ j : Fin (n + 1), val w (f j) := Finset.sum_pos (fun i _ => val_pos w hw (f i)) Finset.univ_nonempty
    simp only [val, expect, structs]
    rw [sum_flatMap, sum_finRange, Finset.mul_sum]
    refine Finset.sum_congr rfl fun i _ => ?_
    rw [← ih i g]
    field_simp
  | times a b iha ihb =>
    simp only [val, expect, structs]
    rw [sum_flatMap]
    have h : val w a * val w b * expect w a (fun x => expect w b fun y => g (x ++ y))
        = val w a * expect w a (fun x => val w b * expect w b fun y => g (x ++ y)) := by
      have lin : ∀ (c : Circuit P) (r : ℝ) (k : List P → ℝ), expect w c (fun x => r * k x) = r * expect w c k := by
        intro c
        induction c with
        | leaf p => intro r k; rfl
        | one => intro r k; rfl
        | plus n f ih =>
          intro r k
          simp only [expect, Finset.mul_sum]
          refine Finset.sum_congr rfl fun i _ => ?_
          rw [ih i r k]; ring
        | times a b iha ihb =>
          intro r k
          simp only [expect]
          rw [← iha]
          congr 1
          funext x
          exact ihb r _
      rw [lin a]; ring
    rw [h, iha]
    congr 1
    refine List.map_congr_left fun x _ => ?_
    rw [ihb, List.map_map, ← List.sum_map_mul_left]
    congr 1
    refine List.map_congr_left fun y _ => ?_
    simp only [Function.comp, weight_append]
    ring

/-- the value is the total weight of the structures -/
theorem val_is_total (w : P → ℝ) (hw : ∀ p, 0 < w p) (c : Circuit P) :
    val w c = ((structs c).map (weight w)).sum := by
  have h := val_mul_expect w hw c (fun _ => 1)
  have e : expect w c (fun _ => 1) = 1 := by
    induction c with
    | leaf p => rfl
    | one => rfl
    | plus n f ih =>
      have hpos : 0 < ∑ j : Fin (n + 1), val w (f j) := Finset.sum_pos (fun i _ => val_pos w hw (f i)) Finset.univ_nonempty
      simp only [expect]
      rw [Finset.sum_congr rfl fun i _ => by rw [ih i (val_mul_expect w hw (f i) _), mul_one], ← Finset.sum_div]
      exact div_self hpos.ne'
    | times a b iha ihb =>
      simp only [expect]
      rw [ihb (val_mul_expect w hw b _)]
      exact iha (val_mul_expect w hw a _)
  rw [e, mul_one] at h
  simpa using h

/-- the backward pass selects each structure with probability weight / total weight -/
theorem sampling_is_exact (w : P → ℝ) (hw : ∀ p, 0 < w p) (c : Circuit P) (g : List P → ℝ) :
    expect w c g = ((structs c).map fun s => weight w s * g s).sum / ((structs c).map (weight w)).sum := by
  rw [← val_is_total w hw c, eq_div_iff (val_pos w hw c).ne', mul_comm]
  exact val_mul_expect w hw c g

end Sampling

#print axioms Sampling.sampling_is_exact
#print axioms Sampling.val_is_total
