import Mathlib.RingTheory.Coprime.Lemmas
import Mathlib.RingTheory.Int.Basic
import Mathlib.Tactic.Ring
import Mathlib.Tactic.LinearCombination

/-! number theory used as axioms by the contracts of C12 -/

-- identities behind the binary algorithm (naturals)
theorem g_comm (a b : Nat) : Nat.gcd a b = Nat.gcd b a := Nat.gcd_comm a b
theorem g_zero (b : Nat) : Nat.gcd 0 b = b := Nat.gcd_zero_left b
theorem g_le (a b : Nat) (h : a ≠ 0) : Nat.gcd a b ≤ a := Nat.gcd_le_left b (Nat.pos_of_ne_zero h)
theorem g_sub (a b : Nat) (h : b ≤ a) : Nat.gcd a b = Nat.gcd (a - b) b := (Nat.gcd_sub_self_left h).symm
theorem g_two (a b : Nat) : Nat.gcd (2 * a) (2 * b) = 2 * Nat.gcd a b := Nat.gcd_mul_left 2 a b
theorem g_half (a b : Nat) (h : b % 2 = 1) : Nat.gcd (2 * a) b = Nat.gcd a b := by
  have : Nat.Coprime 2 b := by
    rw [Nat.coprime_two_left]; exact Nat.odd_iff.mpr h
  exact Nat.Coprime.gcd_mul_left_cancel a this

-- divisibility facts (integers)
theorem g_dvd (a b : Int) : ((Int.gcd a b : Int) ∣ a) ∧ ((Int.gcd a b : Int) ∣ b) := ⟨Int.gcd_dvd_left .., Int.gcd_dvd_right ..⟩

theorem norm_coprime (n d : Int) (h : d ≠ 0) : IsCoprime (n / (Int.gcd n d : Int)) (d / (Int.gcd n d : Int)) := by
  have : 0 < Int.gcd n d := Int.gcd_pos_of_ne_zero_right n h
  exact Int.isCoprime_iff_gcd_eq_one.mpr (Int.gcd_div_gcd_div_gcd this)

theorem add_coprime (a0 a1 b0 b1 s : Int) (hs : s = 1 ∨ s = -1) (ha : IsCoprime a0 a1) (hb : IsCoprime b0 b1) (h1 : 0 < a1) :
    let g : Int := Int.gcd a1 b1
    let t : Int := a0 * (b1 / g) + s * b0 * (a1 / g)
    let h : Int := Int.gcd t g
    IsCoprime (t / h) ((a1 / g) * (b1 / h)) := by
  intro g t h
  have gpos : 0 < Int.gcd a1 b1 := Int.gcd_pos_of_ne_zero_left b1 (ne_of_gt h1)
  have g0 : (g : Int) ≠ 0 := by simpa [g] using (ne_of_gt gpos)
  have hpos : 0 < Int.gcd t g := Int.gcd_pos_of_ne_zero_right t g0
  have h0 : h ≠ 0 := by simpa [h] using (ne_of_gt hpos)
  have hpq : IsCoprime (a1 / g) (b1 / g) := Int.isCoprime_iff_gcd_eq_one.mpr (Int.gcd_div_gcd_div_gcd gpos)
  obtain ⟨p, hp⟩ : g ∣ a1 := Int.gcd_dvd_left ..
  obtain ⟨q, hq⟩ : g ∣ b1 := Int.gcd_dvd_right ..
  have ep : a1 / g = p := by rw [hp]; exact Int.mul_ediv_cancel_left p g0
  have eq' : b1 / g = q := by rw [hq]; exact Int.mul_ediv_cancel_left q g0
  have ht : t = a0 * q + s * b0 * p := by simp only [t, ep, eq']
  rw [ep, eq'] at hpq
  have huv : IsCoprime (t / h) (g / h) := Int.isCoprime_iff_gcd_eq_one.mpr (Int.gcd_div_gcd_div_gcd hpos)
  obtain ⟨u, hu⟩ : h ∣ t := Int.gcd_dvd_left ..
  obtain ⟨v, hv⟩ : h ∣ g := Int.gcd_dvd_right ..
  have eu : t / h = u := by rw [hu]; exact Int.mul_ediv_cancel_left u h0
  have ev : g / h = v := by rw [hv]; exact Int.mul_ediv_cancel_left v h0
  rw [eu, ev] at huv
  have ew : b1 / h = v * q := by
    rw [hq, hv, mul_assoc]; exact Int.mul_ediv_cancel_left (v * q) h0
  have hap : IsCoprime a0 p := by rw [hp] at ha; exact ha.of_mul_right_right
  have hbq : IsCoprime b0 q := by rw [hq] at hb; exact hb.of_mul_right_right
  have hsc : IsCoprime s q := by
    rcases hs with h | h <;> rw [h]
    · exact isCoprime_one_left
    · exact isCoprime_one_left.neg_left
  have tp : IsCoprime t p := by
    rw [ht]; exact (hap.mul_left hpq.symm).add_mul_right_left (s * b0)
  have tq : IsCoprime t q := by
    rw [ht, add_comm]; exact ((hsc.mul_left hbq).mul_left hpq).add_mul_right_left a0
  have up : IsCoprime u p := by rw [hu] at tp; exact tp.of_mul_left_right
  have uq : IsCoprime u q := by rw [hu] at tq; exact tq.of_mul_left_right
  rw [eu, ep, ew]
  exact up.mul_right (huv.mul_right uq)

theorem mul_coprime (a0 a1 b0 b1 : Int) (ha : IsCoprime a0 a1) (hb : IsCoprime b0 b1) (h1 : a1 ≠ 0) (h2 : b1 ≠ 0) :
    let g : Int := Int.gcd a0 b1
    let h : Int := Int.gcd b0 a1
    IsCoprime ((a0 / g) * (b0 / h)) ((a1 / h) * (b1 / g)) := by
  intro g h
  have gpos : 0 < Int.gcd a0 b1 := Int.gcd_pos_of_ne_zero_right a0 h2
  have hpos : 0 < Int.gcd b0 a1 := Int.gcd_pos_of_ne_zero_right b0 h1
  have g0 : g ≠ 0 := by simpa [g] using (ne_of_gt gpos)
  have h0 : h ≠ 0 := by simpa [h] using (ne_of_gt hpos)
  have c1 : IsCoprime (a0 / g) (b1 / g) := Int.isCoprime_iff_gcd_eq_one.mpr (Int.gcd_div_gcd_div_gcd gpos)
  have c2 : IsCoprime (b0 / h) (a1 / h) := Int.isCoprime_iff_gcd_eq_one.mpr (Int.gcd_div_gcd_div_gcd hpos)
  obtain ⟨x, hx⟩ : g ∣ a0 := Int.gcd_dvd_left ..
  obtain ⟨y, hy⟩ : g ∣ b1 := Int.gcd_dvd_right ..
  obtain ⟨z, hz⟩ : h ∣ b0 := Int.gcd_dvd_left ..
  obtain ⟨w, hw⟩ : h ∣ a1 := Int.gcd_dvd_right ..
  have ex : a0 / g = x := by rw [hx]; exact Int.mul_ediv_cancel_left x g0
  have ey : b1 / g = y := by rw [hy]; exact Int.mul_ediv_cancel_left y g0
  have ez : b0 / h = z := by rw [hz]; exact Int.mul_ediv_cancel_left z h0
  have ew : a1 / h = w := by rw [hw]; exact Int.mul_ediv_cancel_left w h0
  rw [ex, ey] at c1
  rw [ez, ew] at c2
  rw [ex, ey, ez, ew]
  have xw : IsCoprime x w := by rw [hx, hw] at ha; exact ha.of_mul_left_right.of_mul_right_right
  have zy : IsCoprime z y := by rw [hz, hy] at hb; exact hb.of_mul_left_right.of_mul_right_right
  exact (xw.mul_right c1).mul_left (c2.mul_right zy)
