import Mathlib.Data.Multiset.Bind
import Mathlib.Order.Interval.Finset.Defs
import Mathlib.Data.Int.Interval
import Mathlib.Algebra.Group.End
import Mathlib.Tactic.Linarith

/-! facts about ghost functions used as axioms by the contracts of C13 and C14 -/

/-- the multiset of the elements of A in [lo, hi) -/
def Bag (A : Int → Int) (lo hi : Int) : Multiset Int := (Finset.Ico lo hi).val.map A

theorem bag_swap (A B : Int → Int) (lo hi a b : Int) (ha : lo ≤ a ∧ a < hi) (hb : lo ≤ b ∧ b < hi) (h1 : A a = B b) (h2 : A b = B a)
    (h : ∀ d, lo ≤ d ∧ d < hi → d ≠ a → d ≠ b → A d = B d) : Bag A lo hi = Bag B lo hi := by
  unfold Bag
  have e : (Finset.Ico lo hi).map (Equiv.swap a b).toEmbedding = Finset.Ico lo hi := by
    ext x
    simp only [Finset.mem_map_equiv, Finset.mem_Ico, Equiv.symm_swap]
    rcases eq_or_ne x a with hx | hx
    · subst hx; simp [ha, hb]
    · rcases eq_or_ne x b with hy | hy
      · subst hy; simp [ha, hb]
      · rw [Equiv.swap_apply_of_ne_of_ne hx hy]
  have m : (Finset.Ico lo hi).val = (Finset.Ico lo hi).val.map (Equiv.swap a b) := by
    conv_lhs => rw [← e]
    rfl
  conv_rhs => rw [m]
  rw [Multiset.map_map]
  apply Multiset.map_congr rfl
  intro x hx
  have hx' : lo ≤ x ∧ x < hi := by simpa using hx
  simp only [Function.comp_apply]
  rcases eq_or_ne x a with h3 | h3
  · subst h3; rw [Equiv.swap_apply_left]; exact h1
  · rcases eq_or_ne x b with h4 | h4
    · subst h4; rw [Equiv.swap_apply_right]; exact h2
    · rw [Equiv.swap_apply_of_ne_of_ne h3 h4]; exact h x hx' h3 h4

/-- the form in which the prover gets it: a position where the two may differ exists for all arguments -/
theorem bag_swap_skolem : ∃ dif : (Int → Int) → (Int → Int) → Int → Int → Int → Int → Int, ∀ A B lo hi a b,
    (lo ≤ a ∧ a < hi) → (lo ≤ b ∧ b < hi) → A a = B b → A b = B a →
    (¬ (lo ≤ dif A B lo hi a b ∧ dif A B lo hi a b < hi) ∨ dif A B lo hi a b = a ∨ dif A B lo hi a b = b ∨ A (dif A B lo hi a b) = B (dif A B lo hi a b)) →
    Bag A lo hi = Bag B lo hi := by
  classical
  have key : ∀ A B : Int → Int, ∀ lo hi a b : Int, ∃ d : Int, (lo ≤ a ∧ a < hi) → (lo ≤ b ∧ b < hi) → A a = B b → A b = B a →
      (¬ (lo ≤ d ∧ d < hi) ∨ d = a ∨ d = b ∨ A d = B d) → Bag A lo hi = Bag B lo hi := by
    intro A B lo hi a b
    by_cases h : ∀ d, lo ≤ d ∧ d < hi → d ≠ a → d ≠ b → A d = B d
    · exact ⟨0, fun ha hb h1 h2 _ => bag_swap A B lo hi a b ha hb h1 h2 h⟩
    · push Not at h
      obtain ⟨d, hd, ha, hb, hn⟩ := h
      refine ⟨d, fun _ _ _ _ ho => ?_⟩
      rcases ho with ho | ho | ho | ho
      · exact absurd hd ho
      · exact absurd ho ha
      · exact absurd ho hb
      · exact absurd ho hn
  choose d hd using key
  exact ⟨d, hd⟩

theorem bag_member (X O : Int → Int) (f l : Int) (h : Bag X f l = Bag O f l) : ∃ s : Int → Int, ∀ k, f ≤ k ∧ k < l → f ≤ s k ∧ s k < l ∧ X k = O (s k) := by
  classical
  have key : ∀ k, ∃ s, f ≤ k ∧ k < l → f ≤ s ∧ s < l ∧ X k = O s := by
    intro k
    by_cases hk : f ≤ k ∧ k < l
    · have : X k ∈ Bag X f l := Multiset.mem_map_of_mem X (by simpa using hk)
      rw [h] at this
      obtain ⟨s, hs, e⟩ := Multiset.mem_map.mp this
      have hs' : f ≤ s ∧ s < l := by simpa using hs
      exact ⟨s, fun _ => ⟨hs'.1, hs'.2, e.symm⟩⟩
    · exact ⟨0, fun h => absurd h hk⟩
  choose s hs using key
  exact ⟨s, hs⟩

/-- in a heap no element is greater than the root -/
theorem heap_root (C : Int → Int → Prop) (X : Int → Int) (f l : Int) (asym : ∀ x y, ¬ (C x y ∧ C y x)) (tr : ∀ x y z, C x y → C x z ∨ C z y)
    (e : ∀ a b, f ≤ a → a < b → b < l → (b - f = 2 * (a - f) + 1 ∨ b - f = 2 * (a - f) + 2) → ¬ C (X a) (X b)) :
    ∀ n : Nat, f + n < l → ¬ C (X f) (X (f + n)) := by
  intro n
  induction n using Nat.strong_induction_on with
  | _ n ih =>
    intro hn hc
    rcases Nat.eq_zero_or_pos n with h0 | h0
    · subst h0; simp at hc; exact asym _ _ ⟨hc, hc⟩
    · have hp : (n - 1) / 2 < n := by omega
      have h1 := ih ((n - 1) / 2) hp (by omega)
      have h2 := e (f + ((n - 1) / 2 : Nat)) (f + n) (by omega) (by omega) hn (by omega)
      rcases tr _ _ (X (f + ((n - 1) / 2 : Nat))) hc with h | h
      · exact h1 h
      · exact h2 h

/-- prefix counts exist -/
theorem count_exists (k : Int → Prop) [DecidablePred k] : ∃ s : Int → Int, ∀ i, s (i + 1) = s i + if k i then 1 else 0 := by
  refine ⟨fun i => ((Finset.Ico 0 i).filter k).card - ((Finset.Ico i 0).filter k).card, fun i => ?_⟩
  rcases lt_or_ge i 0 with h | h
  · have e1 : Finset.Ico (0 : Int) i = ∅ := Finset.Ico_eq_empty (by omega)
    have e2 : Finset.Ico (0 : Int) (i + 1) = ∅ := Finset.Ico_eq_empty (by omega)
    have e3 : Finset.Ico i 0 = insert i (Finset.Ico (i + 1) 0) := by ext x; simp; omega
    have n3 : i ∉ (Finset.Ico (i + 1) 0).filter k := by simp
    simp only [e1, e2, e3, Finset.filter_insert]
    split_ifs with hk
    · rw [Finset.card_insert_of_notMem n3]; simp
    · simp
  · have e1 : Finset.Ico i (0 : Int) = ∅ := Finset.Ico_eq_empty (by omega)
    have e2 : Finset.Ico (i + 1) (0 : Int) = ∅ := Finset.Ico_eq_empty (by omega)
    have e3 : Finset.Ico 0 (i + 1) = insert i (Finset.Ico 0 i) := by ext x; simp; omega
    have n3 : i ∉ (Finset.Ico 0 i).filter k := by simp
    simp only [e1, e2, e3, Finset.filter_insert]
    split_ifs with hk
    · rw [Finset.card_insert_of_notMem n3]; simp
    · simp

theorem count_mono (k : Int → Prop) [DecidablePred k] (s : Int → Int) (f : Int) (h : ∀ i, f ≤ i → s (i + 1) = s i + if k i then 1 else 0) (i j : Int) (hf : f ≤ i) (hij : i ≤ j) :
    s i ≤ s j ∧ s j - s i ≤ j - i := by
  induction j, hij using Int.le_induction with
  | base => omega
  | succ j hj ih => have := h j (by omega); split_ifs at this <;> omega

/-- position of the element kept last (unique) -/
theorem kept_last (same : Int → Int → Prop) [DecidableRel same] (A : Int → Int) (f : Int) : ∃ H : Int → Int, H f = f ∧ (∀ i, f ≤ i → H (i + 1) = if same (A (H i)) (A (i + 1)) then H i else i + 1) ∧ ∀ i, f ≤ i → f ≤ H i ∧ H i ≤ i := by
  let g : Nat → Int := fun n => Nat.rec f (fun m h => if same (A h) (A (f + m + 1)) then h else f + m + 1) n
  have gs : ∀ n : Nat, g (n + 1) = if same (A (g n)) (A (f + n + 1)) then g n else f + n + 1 := fun n => rfl
  have gb : ∀ n : Nat, f ≤ g n ∧ g n ≤ f + n := by
    intro n
    induction n with
    | zero => exact ⟨le_refl _, by simp [g]⟩
    | succ n ih => rw [gs]; split_ifs <;> constructor <;> push_cast <;> omega
  refine ⟨fun i => g (i - f).toNat, by simp [g], fun i hi => ?_, fun i hi => ?_⟩
  · obtain ⟨n, rfl⟩ := Int.le.dest hi
    have e1 : (f + ↑n + 1 - f).toNat = n + 1 := by omega
    have e2 : (f + ↑n - f).toNat = n := by omega
    simp only [e1, e2]; exact gs n
  · have := gb (i - f).toNat
    have e : ((i - f).toNat : Int) = i - f := Int.toNat_of_nonneg (by omega)
    constructor
    · exact this.1
    · have := this.2; simp only; omega

/-- a predicate that holds on a prefix of [g,h) has an end point -/
theorem prefix_end (p : Int → Prop) (g h : Int) (gh : g ≤ h) (dn : ∀ i j, g ≤ i → i ≤ j → j < h → p j → p i) : ∃ n, 0 ≤ n ∧ n ≤ h - g ∧ ∀ j, g ≤ j → j < h → (p j ↔ j - g < n) := by
  induction h, gh using Int.le_induction with
  | base => exact ⟨0, by omega, by omega, fun j _ _ => by omega⟩
  | succ h hh ih =>
    obtain ⟨n, n0, n1, hn⟩ := ih (fun i j a b c => dn i j a b (by omega))
    by_cases hp : p h
    · refine ⟨h + 1 - g, by omega, by omega, fun j a b => ⟨fun _ => by omega, fun _ => dn j h a (by omega) (by omega) hp⟩⟩
    · refine ⟨n, n0, by omega, fun j a b => ?_⟩
      rcases lt_or_eq_of_le (show j ≤ h by omega) with hj | hj
      · exact hn j a hj
      · subst hj; exact ⟨fun x => absurd x hp, fun x => by omega⟩

/-- number of elements of the sorted B less than each element of A; number of elements of the sorted A not greater than each element of B -/
theorem merge_ranks (C : Int → Int → Prop) (A B : Int → Int) (f l g h : Int) (fl : f ≤ l) (gh : g ≤ h) (tr : ∀ x y z, C x y → C x z ∨ C z y)
    (sa : ∀ i j, f ≤ i → i ≤ j → j < l → ¬ C (A j) (A i)) (sb : ∀ i j, g ≤ i → i ≤ j → j < h → ¬ C (B j) (B i)) :
    ∃ LB UB : Int → Int, (∀ i j, f ≤ i → i < l → g ≤ j → j < h → (C (B j) (A i) ↔ j - g < LB i) ∧ (C (B j) (A i) ↔ i - f ≥ UB j)) ∧
      (∀ i, f ≤ i → i < l → 0 ≤ LB i ∧ LB i ≤ h - g) ∧ (∀ j, g ≤ j → j < h → 0 ≤ UB j ∧ UB j ≤ l - f) := by
  have k1 : ∀ i, ∃ n, 0 ≤ n ∧ n ≤ h - g ∧ ∀ j, g ≤ j → j < h → (C (B j) (A i) ↔ j - g < n) := fun i =>
    prefix_end (fun j => C (B j) (A i)) g h gh (fun x y a b c hy => (tr _ _ (B x) hy).resolve_left (sb x y a b c))
  have k2 : ∀ j, ∃ n, 0 ≤ n ∧ n ≤ l - f ∧ ∀ i, f ≤ i → i < l → (¬ C (B j) (A i) ↔ i - f < n) := fun j =>
    prefix_end (fun i => ¬ C (B j) (A i)) f l fl (fun x y a b c hy hx => (tr _ _ (A y) hx).elim hy (sa x y a b c))
  choose LB h1 using k1
  choose UB h2 using k2
  refine ⟨LB, UB, fun i j a b c d => ⟨(h1 i).2.2 j c d, ?_⟩, fun i a b => ⟨(h1 i).1, (h1 i).2.1⟩, fun j a b => ⟨(h2 j).1, (h2 j).2.1⟩⟩
  have := (h2 j).2.2 i a b
  constructor
  · intro x
    by_contra hh
    exact this.mpr (by omega) x
  · intro x
    by_contra hh
    have := this.mp hh
    omega
