/-
Kosaraju's algorithm: what the contracts of dfs and dfs_for_scc (specs/dfs.py) establish about the
numbers of the two searches implies that two vertices get the same component number exactly when
each is reachable from the other.  R is the reflexive transitive closure of the edges.
-/
import Mathlib.Logic.Relation
import Mathlib.Data.Fintype.Basic
import Mathlib.Data.Finset.Max
import Mathlib.Tactic.Linarith

namespace Scc
open Relation

variable {α : Type} (E : α → α → Prop) (V F : α → Int)

abbrev R := ReflTransGen E

/-- a set closed under edges is closed under reachability -/
theorem closed_reach (P : α → Prop) (h : ∀ x w, P x → E x w → P w) (x w : α) (hx : P x)
    (r : R E x w) : P w := by
  induction r with
  | refl => exact hx
  | tail _ e ih => exact h _ _ ih e

/-- reachability contains the edges and is reflexive and transitive -/
theorem reach_def : (∀ x, R E x x) ∧ (∀ x y, E x y → R E x y) ∧
    (∀ x y z, R E x y → R E y z → R E x z) :=
  ⟨fun _ => .refl, fun _ _ h => .single h, fun _ _ _ h k => h.trans k⟩

/-- reachability of the transposed graph -/
theorem reach_swap (x y : α) : R (fun a b => E b a) x y ↔ R E y x := reflTransGen_swap

/-- reachability of a symmetric graph is symmetric -/
theorem reach_symm (h : ∀ x y, E x y → E y x) (x y : α) (r : R E x y) : R E y x := by
  induction r with
  | refl => exact .refl
  | tail _ e ih => exact .head (h _ _ e) ih

structure Searched : Prop where
  num : ∀ x, 0 < V x ∧ V x < F x
  inj : ∀ x y, x ≠ y → V x ≠ V y
  tgt : ∀ x w, E x w → V w < F x
  nest : ∀ x y, V x < V y → F x < V y ∨ (F y < F x ∧ R E x y)

variable {E V F}

theorem finj (h : Searched E V F) (x y : α) (hf : F x = F y) : x = y := by
  by_contra hne
  have := h.inj x y hne
  have hx := h.num x
  have hy := h.num y
  rcases lt_or_gt_of_ne this with l | l
  · rcases h.nest x y l with q | q <;> omega
  · rcases h.nest y x l with q | q <;> omega

/-- a vertex visited before x is left and left after x reaches x -/
theorem anc (h : Searched E V F) (x y : α) (h1 : V y < F x) (h2 : F x ≤ F y) : R E y x := by
  by_cases hne : y = x
  · subst hne; exact .refl
  have hv := h.inj y x hne
  have hx := h.num x
  have hy := h.num y
  have hF : F x ≠ F y := fun e => hne (finj h x y e).symm
  rcases lt_or_gt_of_ne hv with l | l
  · rcases h.nest y x l with q | q
    · omega
    · exact q.2
  · rcases h.nest x y l with q | q <;> omega

theorem crossing (h : Searched E V F) (x a z : α) (r : R E a z) (h1 : F a < F x) (h2 : F x < F z) :
    ∃ y, R E a y ∧ V y < F x ∧ F x ≤ F y := by
  induction r using ReflTransGen.head_induction_on with
  | refl => omega
  | @head a b e r ih =>
    have ht := h.tgt a b e
    by_cases hb : F x ≤ F b
    · exact ⟨b, .single e, by omega, hb⟩
    · obtain ⟨y, r1, r2, r3⟩ := ih (by omega)
      exact ⟨y, .head e r1, r2, r3⟩

/-- the last finished vertex reachable from x reaches x -/
theorem forefather (h : Searched E V F) (x z : α) (r : R E x z) (m : ∀ w, R E x w → F w ≤ F z) :
    R E z x := by
  induction r using ReflTransGen.head_induction_on with
  | refl => exact .refl
  | @head x a e r ih =>
    have hza : R E z a := ih (fun w hw => m w (.head e hw))
    by_cases ha : F x ≤ F a
    · exact hza.trans (anc h x a (h.tgt x a e) ha)
    · by_cases hz : x = z
      · subst hz; exact .refl
      have : F x ≤ F z := m x .refl
      have hne : F x ≠ F z := fun q => hz (finj h x z q)
      obtain ⟨y, r1, r2, r3⟩ := crossing h x a z r (by omega) (by omega)
      exact (hza.trans r1).trans (anc h x y r2 r3)

theorem mono {sc : α → Int} (s1 : ∀ w x, E w x → sc w ≤ sc x) (x y : α) (r : R E x y) : sc x ≤ sc y := by
  induction r with
  | refl => exact le_refl _
  | tail _ e ih => exact le_trans ih (s1 _ _ e)

/-- components are exactly the classes of mutual reachability -/
theorem kosaraju [Fintype α] (h : Searched E V F) (sc : α → Int) (s1 : ∀ w x, E w x → sc w ≤ sc x)
    (s2 : ∀ x, ∃ r, sc r = sc x ∧ R E x r ∧ ∀ y, sc x ≤ sc y → F y ≤ F r) (x y : α) :
    sc x = sc y ↔ (R E x y ∧ R E y x) := by
  classical
  have key : ∀ x, ∀ r, sc r = sc x → R E x r → (∀ y, sc x ≤ sc y → F y ≤ F r) → R E r x := by
    intro x r h1 h2 h3
    obtain ⟨z, hz, hm⟩ := Finset.exists_max_image (Finset.univ.filter (fun w => R E x w)) F ⟨x, by simp [R, ReflTransGen.refl]⟩
    simp only [Finset.mem_filter, Finset.mem_univ, true_and] at hz hm
    have rz := forefather h x z hz (fun w hw => hm w hw)
    have a1 := h3 z (mono s1 x z hz)
    have a2 := hm r h2
    have : z = r := finj h z r (by omega)
    subst this; exact rz
  constructor
  · intro hxy
    obtain ⟨r, a1, a2, a3⟩ := s2 x
    obtain ⟨q, b1, b2, b3⟩ := s2 y
    have e1 := a3 q (by omega)
    have e2 := b3 r (by omega)
    have : r = q := finj h r q (by omega)
    subst this
    exact ⟨a2.trans (key y r b1 b2 b3), b2.trans (key x r a1 a2 a3)⟩
  · intro ⟨h1, h2⟩
    exact le_antisymm (mono s1 _ _ h1) (mono s1 _ _ h2)

end Scc
