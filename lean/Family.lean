/-
  Finite families of structures with real scores: probabilities sum to one, the KL divergence is non-negative; the derivative
  of the log-partition with respect to a potential is the expected number of its uses (C08), that of the maximum the number of
  its uses in the best structure (C09).
  `logZ`, `logp` and `kl` are the terms the contracts of C07 and C20 prove the code to return.
-/
import Mathlib

namespace Family

open Finset

variable {Z : Type*} [Fintype Z] [Nonempty Z]

/-- log-partition of a family of scores -/
noncomputable def logZ (s : Z → ℝ) : ℝ := Real.log (∑ z, Real.exp (s z))

/-- log-probability of a structure -/
noncomputable def logp (s : Z → ℝ) (z : Z) : ℝ := s z - logZ s

/-- KL divergence of two families of scores over the same structures -/
noncomputable def kl (s t : Z → ℝ) : ℝ := ∑ z, Real.exp (logp s z) * (logp s z - logp t z)

theorem total_pos (s : Z → ℝ) : 0 < ∑ z, Real.exp (s z) :=
  Finset.sum_pos (fun _ _ => Real.exp_pos _) Finset.univ_nonempty

theorem probabilities_sum_to_one (s : Z → ℝ) : ∑ z, Real.exp (logp s z) = 1 := by
  have h := total_pos s
  have : ∀ z, Real.exp (logp s z) = Real.exp (s z) / ∑ z, Real.exp (s z) := by
    intro z
    rw [logp, Real.exp_sub, logZ, Real.exp_log h]
  simp only [this, ← Finset.sum_div]
  exact div_self h.ne'

theorem kl_nonneg (s t : Z → ℝ) : 0 ≤ kl s t := by
  have hp := probabilities_sum_to_one s
  have hq := probabilities_sum_to_one t
  have key : ∀ z, Real.exp (logp s z) - Real.exp (logp t z) ≤ Real.exp (logp s z) * (logp s z - logp t z) := by
    intro z
    have h1 := Real.add_one_le_exp (logp t z - logp s z)
    have h2 : Real.exp (logp t z) = Real.exp (logp s z) * Real.exp (logp t z - logp s z) := by
      rw [← Real.exp_add]; congr 1; ring
    rw [h2]
    nlinarith [Real.exp_pos (logp s z)]
  have := Finset.sum_le_sum (fun z (_ : z ∈ Finset.univ) => key z)
  rw [Finset.sum_sub_distrib, hp, hq] at this
  simpa [kl] using this

/-- A potential used `c z` times by structure `z` is raised by `x`: the slope of the log-partition is the marginal. -/
theorem marginal (s c : Z → ℝ) :
    HasDerivAt (fun x => logZ (fun z => s z + x * c z)) (∑ z, Real.exp (logp s z) * c z) 0 := by
  have h := total_pos s
  have e : ∀ z, Real.exp (logp s z) = Real.exp (s z) / ∑ z, Real.exp (s z) := by
    intro z
    rw [logp, Real.exp_sub, logZ, Real.exp_log h]
  have d : ∀ z ∈ (Finset.univ : Finset Z),
      HasDerivAt (fun x => Real.exp (s z + x * c z)) (Real.exp (s z) * c z) 0 := by
    intro z _
    have h1 : HasDerivAt (fun x : ℝ => s z + x * c z) (c z) 0 := by
      simpa using ((hasDerivAt_id (0 : ℝ)).mul_const (c z)).const_add (s z)
    simpa using h1.exp
  have t := HasDerivAt.fun_sum d
  have l := t.log (by simpa using h.ne')
  have v : (∑ z, Real.exp (s z) * c z) / (∑ z, Real.exp (s z + 0 * c z)) = ∑ z, Real.exp (logp s z) * c z := by
    simp only [zero_mul, add_zero, e, Finset.sum_div]
    exact Finset.sum_congr rfl (fun z _ => by ring)
  rw [v] at l
  exact l

/-- With one best structure the slope of the maximum is the number of uses in it. -/
theorem best (s c : Z → ℝ) (m : Z) (hm : ∀ z, z ≠ m → s z < s m) :
    HasDerivAt (fun x => Finset.univ.sup' Finset.univ_nonempty (fun z => s z + x * c z)) (c m) 0 := by
  have h1 : HasDerivAt (fun x : ℝ => s m + x * c m) (c m) 0 := by
    simpa using ((hasDerivAt_id (0 : ℝ)).mul_const (c m)).const_add (s m)
  refine h1.congr_of_eventuallyEq ?_
  have near : ∀ z : Z, ∀ᶠ x : ℝ in nhds 0, s z + x * c z ≤ s m + x * c m := by
    intro z
    by_cases hz : z = m
    · subst hz; exact Filter.Eventually.of_forall (fun _ => le_refl _)
    · have c1 : ContinuousAt (fun x : ℝ => s z + x * c z) 0 := by fun_prop
      have c2 : ContinuousAt (fun x : ℝ => s m + x * c m) 0 := by fun_prop
      have := c1.eventually_lt c2 (by simpa using hm z hz)
      exact this.mono (fun _ h => h.le)
  filter_upwards [Filter.eventually_all.2 near] with x hx
  apply le_antisymm
  · exact Finset.sup'_le _ _ (fun z _ => hx z)
  · exact Finset.le_sup' (fun z => s z + x * c z) (Finset.mem_univ m)

end Family

#print axioms Family.probabilities_sum_to_one
#print axioms Family.kl_nonneg
#print axioms Family.marginal
#print axioms Family.best
