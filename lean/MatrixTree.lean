import Mathlib
/-! Matrix-tree theorem for the Laplacians of contracts/c14.py: the determinant is the sum over all (non-projective) trees. -/
open Finset Matrix

namespace MatrixTree
variable {ι : Type*} [Fintype ι] [DecidableEq ι]

/-- One step towards the root; `none` is the root symbol. -/
def step (p : ι → Option ι) (o : Option ι) : Option ι := o.bind p

/-- The chain of heads of `j` ends. -/
def Ends (p : ι → Option ι) (j : ι) : Prop := ∃ k, (step p)^[k] (some j) = none

/-- A head function is a tree if every word hangs below the root symbol. -/
def Tree (p : ι → Option ι) : Prop := ∀ j, Ends p j

omit [Fintype ι] [DecidableEq ι] in
theorem ends_none {p : ι → Option ι} {j : ι} (h : p j = none) : Ends p j := ⟨1, by simp [step, h]⟩

omit [Fintype ι] [DecidableEq ι] in
theorem ends_some {p : ι → Option ι} {j x : ι} (h : p j = some x) : Ends p j ↔ Ends p x := by
  constructor
  · rintro ⟨k, hk⟩
    cases k with
    | zero => simp at hk
    | succ k => exact ⟨k, by simpa [Function.iterate_succ_apply, step, h] using hk⟩
  · rintro ⟨k, hk⟩
    exact ⟨k + 1, by simpa [Function.iterate_succ_apply, step, h] using hk⟩

/-- Row `j` is the unit vector of `j` minus that of its head. -/
def vec (j : ι) : Option ι → ι → ℝ
  | none => Pi.single j 1
  | some h => Pi.single j 1 - Pi.single h 1

def V (p : ι → Option ι) : Matrix ι ι ℝ := fun j => vec j (p j)

open Classical in
theorem V_mul (p : ι → Option ι) (x : ι → ℝ) (j : ι) :
    (V p *ᵥ x) j = x j - (match p j with | none => 0 | some h => x h) := by
  change vec j (p j) ⬝ᵥ x = _
  cases h : p j with
  | none => simp [vec]
  | some h => simp [vec, sub_dotProduct]

open Classical in
theorem det_cycle {p : ι → Option ι} (h : ¬ Tree p) : (V p).det = 0 := by
  unfold Tree at h
  push Not at h
  obtain ⟨m, hm⟩ := h
  refine exists_mulVec_eq_zero_iff.1 ⟨fun j => if Ends p j then 0 else 1, ?_, ?_⟩
  · intro h0
    have := congrFun h0 m
    simp [hm] at this
  · funext j
    rw [V_mul]
    cases hp : p j with
    | none => simp [ends_none hp]
    | some x => simp [ends_some hp]

open Classical in
noncomputable def depth (p : ι → Option ι) (j : ι) : ℕ := sInf {k | (step p)^[k] (some j) = none}

omit [Fintype ι] [DecidableEq ι] in
theorem depth_lt {p : ι → Option ι} (T : Tree p) {j x : ι} (h : p j = some x) : depth p x < depth p j := by
  have h1 : depth p j ∈ {k | (step p)^[k] (some j) = none} := Nat.sInf_mem (T j)
  rcases hk : depth p j with _ | k
  · rw [hk] at h1; simp at h1
  · rw [hk] at h1
    have : k ∈ {k | (step p)^[k] (some x) = none} := by
      simpa [Function.iterate_succ_apply, step, h] using h1
    exact Nat.lt_succ_of_le (Nat.sInf_le this)

open Classical in
theorem det_tree {p : ι → Option ι} (T : Tree p) : (V p).det = 1 := by
  have hb : BlockTriangular (V p) (fun j => OrderDual.toDual (depth p j)) := by
    intro i j hij
    have hij' : depth p i < depth p j := hij
    unfold V
    cases hp : p i with
    | none =>
      have : j ≠ i := by rintro rfl; exact lt_irrefl _ hij'
      simp [vec, this]
    | some x =>
      have h1 := depth_lt T hp
      have h2 : j ≠ i := by rintro rfl; exact lt_irrefl _ hij'
      have h3 : j ≠ x := by rintro rfl; omega
      simp [vec, h2, h3]
  rw [hb.det]
  refine prod_eq_one fun a _ => ?_
  have : (V p).toSquareBlock (fun j => OrderDual.toDual (depth p j)) a = 1 := by
    ext ⟨i, hi⟩ ⟨j, hj⟩
    have hd : depth p i = depth p j := by
      have := hi.trans hj.symm
      simpa using this
    simp only [toSquareBlock, toSquareBlockProp, toBlock, Matrix.one_apply, Subtype.mk.injEq, V, submatrix_apply]
    cases hp : p i with
    | none => simp [vec, Pi.single_apply, eq_comm]
    | some x =>
      have h1 := depth_lt T hp
      have h3 : j ≠ x := by rintro rfl; omega
      simp [vec, Pi.single_apply, eq_comm, h3]
  rw [this, det_one]

open Classical in
/-- Determinants whose rows are weighted sums of the head choices. -/
theorem expand (W : ι → Option ι → ℝ) :
    (Matrix.of fun j => ∑ o, W j o • vec j o).det = ∑ p : ι → Option ι, if Tree p then ∏ j, W j (p j) else 0 := by
  have h := (detRowAlternating (n := ι) (R := ℝ)).toMultilinearMap.map_sum (fun j o => W j o • vec j o)
  have h0 : (Matrix.of fun j => ∑ o, W j o • vec j o).det
      = (detRowAlternating (n := ι) (R := ℝ)).toMultilinearMap fun j => ∑ o, W j o • vec j o := rfl
  rw [h0, h]
  refine sum_congr rfl fun p _ => ?_
  rw [MultilinearMap.map_smul_univ]
  have h1 : (detRowAlternating (n := ι) (R := ℝ)).toMultilinearMap (fun j => vec j (p j)) = (V p).det := rfl
  rw [h1]
  by_cases T : Tree p
  · simp [det_tree T, T]
  · simp [det_cycle T, T]

/-! ### Any number of root words -/

/-- `laplacian(…, multi=True)` of contracts/c14.py with arc weights `a` and root weights `r`. -/
def lap (a : ι → ι → ℝ) (r : ι → ℝ) : Matrix ι ι ℝ :=
  Matrix.of fun i j => if i = j then (∑ h, if h = j then 0 else a h j) + r i else -a i j

/-- Weight of a head choice of word `j`. -/
def weight (a : ι → ι → ℝ) (r : ι → ℝ) (j : ι) : Option ι → ℝ
  | none => r j
  | some h => a h j

theorem lap_rows (a : ι → ι → ℝ) (r : ι → ℝ) : (lap a r)ᵀ = Matrix.of fun j => ∑ o, weight a r j o • vec j o := by
  ext j i
  simp only [transpose_apply, lap, of_apply, Fintype.sum_option, weight, vec, Pi.add_apply, Pi.smul_apply, smul_eq_mul,
    Finset.sum_apply, Pi.sub_apply, Pi.single_apply, mul_sub, sum_sub_distrib]
  by_cases h : i = j
  · subst h
    simp only [if_true, mul_one, mul_ite, mul_zero]
    rw [add_comm, ← sum_sub_distrib]
    congr 1
    refine sum_congr rfl fun h _ => ?_
    by_cases hh : h = i
    · simp [hh]
    · simp [hh, Ne.symm hh]
  · simp [h]

open Classical in
theorem multi_root (a : ι → ι → ℝ) (r : ι → ℝ) :
    (lap a r).det = ∑ p : ι → Option ι, if Tree p then ∏ j, weight a r j (p j) else 0 := by
  rw [← det_transpose, lap_rows, expand]

open Classical in
/-- The trees that use one given head choice `o` of word `c`. -/
theorem choice_sum (a : ι → ι → ℝ) (r : ι → ℝ) (c : ι) (o : Option ι) :
    (∑ p : ι → Option ι, if Tree p ∧ p c = o then ∏ j, weight a r j (p j) else 0)
      = weight a r c o * ((lap a r).updateCol c (vec c o)).det := by
  have h := expand (fun j o' => if j = c then (if o' = o then weight a r c o else 0) else weight a r j o')
  have e : (Matrix.of fun j => ∑ o', (fun j o' => if j = c then (if o' = o then weight a r c o else 0) else weight a r j o') j o' • vec j o')
      = ((lap a r)ᵀ).updateRow c (weight a r c o • vec c o) := by
    rw [lap_rows]
    ext j i
    rw [updateRow_apply]
    by_cases hj : j = c
    · subst hj
      simp [ite_smul]
    · simp [hj]
  rw [e, det_updateRow_smul, updateRow_transpose, det_transpose] at h
  rw [h]
  refine sum_congr rfl fun p _ => ?_
  by_cases T : Tree p
  · by_cases hc : p c = o
    · simp only [T, hc, and_self, if_true]
      refine prod_congr rfl fun j _ => ?_
      by_cases hj : j = c
      · subst hj; simp [hc]
      · simp [hj]
    · simp only [T, hc, and_false, if_false, if_true]
      rw [prod_eq_zero (mem_univ c)]
      simp [hc]
  · simp [T]

theorem solve (M : Matrix ι ι ℝ) (hM : M.det ≠ 0) (c : ι) (v : ι → ℝ) : (M.updateCol c v).det = M.det * (M⁻¹ *ᵥ v) c := by
  have h := det_smul_inv_mulVec_eq_cramer M v (isUnit_iff_ne_zero.2 hM)
  rw [← cramer_apply, ← h, Pi.smul_apply, smul_eq_mul]

theorem inv_vec (M : Matrix ι ι ℝ) (c : ι) (o : Option ι) :
    (M *ᵥ vec c o) c = M c c - (match o with | none => 0 | some h => M c h) := by
  cases o with
  | none => simp [vec]
  | some h => simp [vec, mulVec_sub]

open Classical in
/-- Probability of a head choice: the term returned by `deptree_nonproj` (weight times a difference of inverse entries). -/
theorem multi_root_marginal (a : ι → ι → ℝ) (r : ι → ℝ) (hM : (lap a r).det ≠ 0) (c : ι) (o : Option ι) :
    (∑ p : ι → Option ι, if Tree p ∧ p c = o then ∏ j, weight a r j (p j) else 0)
        / (∑ p : ι → Option ι, if Tree p then ∏ j, weight a r j (p j) else 0)
      = weight a r c o * ((lap a r)⁻¹ c c - (match o with | none => 0 | some h => (lap a r)⁻¹ c h)) := by
  rw [choice_sum, ← multi_root, solve _ hM, inv_vec]
  field_simp

/-! ### Exactly one root word

A head choice is `none` (below the root symbol), `some none` (detached: the unit entries on the diagonal of words outside the
length) or `some (some h)`.  Row `z` of the matrix holds the root weights. -/

def svec (z j : ι) : Option (Option ι) → ι → ℝ
  | none => Pi.single z 1
  | some o => Function.update (vec j o) z 0

def head (q : ι → Option (Option ι)) (j : ι) : Option ι := (q j).join

/-- The chain of heads of `j` ends in a word below the root symbol. -/
def Down (q : ι → Option (Option ι)) (j : ι) : Prop := ∃ n k, (step (head q))^[n] (some j) = some k ∧ q k = none

omit [Fintype ι] [DecidableEq ι] in
theorem down_none {q : ι → Option (Option ι)} {j : ι} (h : q j = none) : Down q j := ⟨0, j, rfl, h⟩

omit [Fintype ι] [DecidableEq ι] in
theorem iterate_none (p : ι → Option ι) (n : ℕ) : (step p)^[n] none = none := by
  induction n with
  | zero => rfl
  | succ n ih => rw [Function.iterate_succ_apply]; exact ih

omit [Fintype ι] [DecidableEq ι] in
theorem down_detached {q : ι → Option (Option ι)} {j : ι} (h : q j = some none) : ¬ Down q j := by
  rintro ⟨n, k, hn, hk⟩
  cases n with
  | zero => simp at hn; subst hn; simp [h] at hk
  | succ n =>
    rw [Function.iterate_succ_apply] at hn
    have : step (head q) (some j) = none := by simp [step, head, h]
    rw [this, iterate_none] at hn
    cases hn

omit [Fintype ι] [DecidableEq ι] in
theorem down_some {q : ι → Option (Option ι)} {j x : ι} (h : q j = some (some x)) : Down q j ↔ Down q x := by
  have e : step (head q) (some j) = some x := by simp [step, head, h]
  constructor
  · rintro ⟨n, k, hn, hk⟩
    cases n with
    | zero => simp at hn; subst hn; simp [h] at hk
    | succ n => exact ⟨n, k, by rwa [Function.iterate_succ_apply, e] at hn, hk⟩
  · rintro ⟨n, k, hn, hk⟩
    exact ⟨n + 1, k, by rwa [Function.iterate_succ_apply, e], hk⟩

/-- Exactly one word below the root symbol, no cycles, and word `z` belongs to the tree. -/
def Single (z : ι) (q : ι → Option (Option ι)) : Prop := (∃! k, q k = none) ∧ Tree (head q) ∧ Down q z

open Classical in
theorem det_choice (z : ι) (q : ι → Option (Option ι)) :
    (Matrix.of fun j => svec z j (q j)).det = if Single z q then 1 else 0 := by
  by_cases hu : ∃! k, q k = none
  · obtain ⟨k, hk, hk'⟩ := hu
    have hcol := det_updateCol_sum (V (head q)) z (fun i => if Down q i then 1 else 0)
    have e1 : (fun j => ∑ i, (if Down q i then (1 : ℝ) else 0) • V (head q) j i) = Pi.single k 1 := by
      funext j
      have h0 := V_mul (head q) (fun i => if Down q i then 1 else 0) j
      have h1 : (V (head q) *ᵥ fun i => if Down q i then 1 else 0) j = ∑ i, (if Down q i then (1 : ℝ) else 0) • V (head q) j i := by
        simp only [mulVec, dotProduct, smul_eq_mul, mul_comm]
      rw [← h1, h0]
      rcases hq : q j with _ | _ | x
      · have : j = k := hk' j hq
        subst this
        simp [head, hq, down_none hq]
      · have : j ≠ k := by rintro rfl; rw [hk] at hq; cases hq
        simp [head, hq, down_detached hq, this]
      · have : j ≠ k := by rintro rfl; rw [hk] at hq; cases hq
        simp [head, hq, down_some hq, this]
    rw [e1] at hcol
    have e2 : (Matrix.of fun j => svec z j (q j)).det = ((V (head q)).updateCol z (Pi.single k 1)).det := by
      have row : ∀ j, j ≠ k → svec z j (q j) = Function.update (vec j (head q j)) z 0 := by
        intro j hj
        rcases hq : q j with _ | o
        · exact absurd (hk' j hq) hj
        · simp [svec, head, hq]
      have hhk : head q k = none := by simp [head, hk]
      by_cases hkz : k = z
      · congr 1
        ext j i
        rw [updateCol_apply, of_apply]
        by_cases hj : j = k
        · subst hj
          rw [hk]
          subst hkz
          by_cases hi : i = j
          · simp [svec, hi]
          · simp [svec, hi, V, hhk, vec]
        · rw [row j hj]
          by_cases hi : i = z
          · simp [hi, hj]
          · simp [hi, V]
      · have h2 := det_updateCol_add_smul_self ((V (head q)).updateCol z (Pi.single k 1)) hkz (-1)
        rw [← h2]
        congr 1
        ext j i
        simp only [updateCol_apply, of_apply]
        by_cases hj : j = k
        · subst hj
          rw [hk]
          by_cases hi : i = j
          · subst hi
            simp [svec, hkz, V, hhk, vec]
          · by_cases hi' : i = z
            · subst hi'; simp [svec, hi]
            · simp [svec, hi, hi', V, hhk, vec]
        · rw [row j hj]
          by_cases hi : i = k
          · subst hi
            simp [hkz, hj, V]
          · by_cases hi' : i = z
            · subst hi'; simp [hi, hj]
            · simp [hi, hi', V]
    rw [e2, hcol]
    have hS : Single z q ↔ Tree (head q) ∧ Down q z := ⟨fun h => h.2, fun h => ⟨⟨k, hk, hk'⟩, h⟩⟩
    by_cases T : Tree (head q)
    · by_cases D : Down q z
      · simp [hS, T, D, det_tree T]
      · simp [hS, D]
    · simp [hS, T, det_cycle T]
  · rw [if_neg fun h => hu h.1]
    by_cases h0 : ∃ k, q k = none
    · obtain ⟨k, hk⟩ := h0
      have : ∃ j, q j = none ∧ j ≠ k := by
        by_contra hc
        push Not at hc
        exact hu ⟨k, hk, hc⟩
      obtain ⟨j, hj, hjk⟩ := this
      refine det_zero_of_row_eq hjk ?_
      change svec z j (q j) = svec z k (q k)
      rw [hj, hk]; rfl
    · push Not at h0
      refine det_eq_zero_of_column_eq_zero z fun j => ?_
      rcases hq : q j with _ | o
      · exact absurd hq (h0 j)
      · simp [svec, hq]

open Classical in
theorem expand' (z : ι) (W : ι → Option (Option ι) → ℝ) :
    (Matrix.of fun j => ∑ o, W j o • svec z j o).det
      = ∑ q : ι → Option (Option ι), if Single z q then ∏ j, W j (q j) else 0 := by
  have h := (detRowAlternating (n := ι) (R := ℝ)).toMultilinearMap.map_sum (fun j o => W j o • svec z j o)
  have h0 : (Matrix.of fun j => ∑ o, W j o • svec z j o).det
      = (detRowAlternating (n := ι) (R := ℝ)).toMultilinearMap fun j => ∑ o, W j o • svec z j o := rfl
  rw [h0, h]
  refine sum_congr rfl fun q _ => ?_
  rw [MultilinearMap.map_smul_univ]
  have h1 : (detRowAlternating (n := ι) (R := ℝ)).toMultilinearMap (fun j => svec z j (q j))
      = (Matrix.of fun j => svec z j (q j)).det := rfl
  rw [h1, det_choice]
  by_cases S : Single z q <;> simp [S]

/-- `laplacian(…, multi=False)` of contracts/c14.py: row `z` holds the root weights `r`, `d` is added to the diagonal elsewhere. -/
def slap (z : ι) (a : ι → ι → ℝ) (r d : ι → ℝ) : Matrix ι ι ℝ :=
  Matrix.of fun i j => if i = z then r j else if i = j then (∑ h, if h = j then 0 else a h j) + d j else -a i j

def sweight (a : ι → ι → ℝ) (r d : ι → ℝ) (j : ι) : Option (Option ι) → ℝ
  | none => r j
  | some none => d j
  | some (some h) => a h j

theorem slap_rows (z : ι) (a : ι → ι → ℝ) (r d : ι → ℝ) :
    (slap z a r d)ᵀ = Matrix.of fun j => ∑ o, sweight a r d j o • svec z j o := by
  have h0 := lap_rows a d
  ext j i
  have h := congrFun (congrFun h0 j) i
  simp only [transpose_apply, lap, of_apply, Fintype.sum_option, weight, Pi.add_apply, Pi.smul_apply, smul_eq_mul,
    Finset.sum_apply] at h
  simp only [transpose_apply, slap, of_apply, Fintype.sum_option, sweight, svec, Pi.add_apply, Pi.smul_apply, smul_eq_mul,
    Finset.sum_apply]
  by_cases hz : i = z
  · subst hz
    simp
  · simp only [hz, if_false, Pi.single_apply, Function.update_apply, mul_zero, zero_add]
    rw [← h]
    by_cases hij : i = j
    · simp [hij]
    · simp [hij]

open Classical in
theorem single_root (z : ι) (a : ι → ι → ℝ) (r d : ι → ℝ) :
    (slap z a r d).det = ∑ q : ι → Option (Option ι), if Single z q then ∏ j, sweight a r d j (q j) else 0 := by
  rw [← det_transpose, slap_rows, expand']

open Classical in
theorem single_choice_sum (z : ι) (a : ι → ι → ℝ) (r d : ι → ℝ) (c : ι) (o : Option (Option ι)) :
    (∑ q : ι → Option (Option ι), if Single z q ∧ q c = o then ∏ j, sweight a r d j (q j) else 0)
      = sweight a r d c o * ((slap z a r d).updateCol c (svec z c o)).det := by
  have h := expand' z (fun j o' => if j = c then (if o' = o then sweight a r d c o else 0) else sweight a r d j o')
  have e : (Matrix.of fun j => ∑ o', (fun j o' => if j = c then (if o' = o then sweight a r d c o else 0) else sweight a r d j o') j o' • svec z j o')
      = ((slap z a r d)ᵀ).updateRow c (sweight a r d c o • svec z c o) := by
    rw [slap_rows]
    ext j i
    rw [updateRow_apply]
    by_cases hj : j = c
    · subst hj
      simp [ite_smul]
    · simp [hj]
  rw [e, det_updateRow_smul, updateRow_transpose, det_transpose] at h
  rw [h]
  refine sum_congr rfl fun p _ => ?_
  by_cases T : Single z p
  · by_cases hc : p c = o
    · simp only [T, hc, and_self, if_true]
      refine prod_congr rfl fun j _ => ?_
      by_cases hj : j = c
      · subst hj; simp [hc]
      · simp [hj]
    · simp only [T, hc, and_false, if_false, if_true]
      rw [prod_eq_zero (mem_univ c)]
      simp [hc]
  · simp [T]

open Classical in
/-- Probability of an arc and of being the root word: the terms of contracts/c14.py. -/
theorem single_root_marginal (z : ι) (a : ι → ι → ℝ) (r d : ι → ℝ) (hM : (slap z a r d).det ≠ 0) (c : ι) :
    let Z := ∑ q : ι → Option (Option ι), if Single z q then ∏ j, sweight a r d j (q j) else 0
    let S := fun o => ∑ q : ι → Option (Option ι), if Single z q ∧ q c = o then ∏ j, sweight a r d j (q j) else 0
    let I := (slap z a r d)⁻¹
    S none / Z = r c * I c z ∧
      ∀ h, S (some (some h)) / Z = a h c * ((if c = z then 0 else I c c) - (if h = z then 0 else I c h)) := by
  have up : ∀ (M : Matrix ι ι ℝ) (v : ι → ℝ), (M *ᵥ Function.update v z 0) c = (M *ᵥ v) c - v z * M c z := by
    intro M v
    have : Function.update v z 0 = v - v z • Pi.single z (1 : ℝ) := by
      funext i
      by_cases hi : i = z
      · subst hi; simp
      · simp [hi]
    rw [this, mulVec_sub, mulVec_smul, Pi.sub_apply, Pi.smul_apply, smul_eq_mul]
    simp
  refine ⟨?_, fun h => ?_⟩
  · simp only
    rw [single_choice_sum, ← single_root, solve _ hM]
    simp only [sweight, svec]
    rw [mul_left_comm, mul_div_cancel_left₀ _ hM]
    simp
  · simp only
    rw [single_choice_sum, ← single_root, solve _ hM]
    simp only [sweight, svec]
    rw [mul_left_comm, mul_div_cancel_left₀ _ hM, up, inv_vec]
    congr 1
    by_cases h1 : c = z
    · subst h1
      by_cases h2 : h = c
      · subst h2; simp [vec]
      · simp [vec, h2, Ne.symm h2]
    · by_cases h2 : h = z
      · subst h2
        simp [vec, h1, Ne.symm h1]
      · simp [vec, h1, h2, Ne.symm h1, Ne.symm h2]

end MatrixTree

#print axioms MatrixTree.multi_root
#print axioms MatrixTree.multi_root_marginal
#print axioms MatrixTree.single_root
#print axioms MatrixTree.single_root_marginal
