/- Unique readability of the prefix text: a leaf is a word without separators, a compound expression is
   '(' head ' ' operand ' ' ... operand ')'; an atomic expression is a word that ends in its own opening mark, one operand, ')'.
   If two expressions have the same text they are the same expression. -/
inductive Tk | op | cl | sp | ato | ch (n : Nat)
open Tk
mutual
inductive T
  | leaf (w : List Nat)
  | node (h : List Nat) (cs : L)
  | atom (c : T)
inductive L
  | nil
  | cons (c : T) (cs : L)
end
def word : List Nat → List Tk
  | [] => []
  | n :: ns => ch n :: word ns
mutual
def pr : T → List Tk
  | .leaf w => word w
  | .node h cs => op :: (word h ++ prs cs)
  | .atom c => ato :: (pr c ++ [cl])
def prs : L → List Tk
  | .nil => [cl]
  | .cons c cs => sp :: (pr c ++ prs cs)
end
def IsSep : List Tk → Prop
  | [] => True
  | ch _ :: _ => False
  | _ => True
theorem word_inj : ∀ (a b : List Nat) (r s : List Tk), IsSep r → IsSep s → word a ++ r = word b ++ s → a = b ∧ r = s
  | [], [], r, s, _, _, h => by simpa [word] using h
  | [], b :: bs, r, s, hr, _, h => by
      simp [word] at h; subst h; simp [IsSep] at hr
  | a :: as, [], r, s, _, hs, h => by
      simp [word] at h; subst h; simp [IsSep] at hs
  | a :: as, b :: bs, r, s, hr, hs, h => by
      simp [word] at h
      have := word_inj as bs r s hr hs h.2
      exact ⟨by rw [h.1, this.1], this.2⟩
theorem prs_sep (c : L) (r : List Tk) : IsSep (prs c ++ r) := by
  cases c <;> simp [prs, IsSep]
/- leaves are not empty words -/
mutual
def wf : T → Prop
  | .leaf w => w ≠ []
  | .node _ cs => wfs cs
  | .atom c => wf c
def wfs : L → Prop
  | .nil => True
  | .cons c cs => wf c ∧ wfs cs
end
mutual
theorem pr_inj : ∀ (a b : T) (r s : List Tk), wf a → wf b → IsSep r → IsSep s → pr a ++ r = pr b ++ s → a = b ∧ r = s
  | .leaf w, .leaf v, r, s, _, _, hr, hs, h => by
      have := word_inj w v r s hr hs (by simpa [pr] using h)
      exact ⟨by rw [this.1], this.2⟩
  | .leaf [], .node _ _, _, _, ha, _, _, _, _ => by simp [wf] at ha
  | .leaf (_ :: _), .node _ _, _, _, _, _, _, _, h => by simp [pr, word] at h
  | .leaf [], .atom _, _, _, ha, _, _, _, _ => by simp [wf] at ha
  | .leaf (_ :: _), .atom _, _, _, _, _, _, _, h => by simp [pr, word] at h
  | .node _ _, .leaf [], _, _, _, hb, _, _, _ => by simp [wf] at hb
  | .node _ _, .leaf (_ :: _), _, _, _, _, _, _, h => by simp [pr, word] at h
  | .atom _, .leaf [], _, _, _, hb, _, _, _ => by simp [wf] at hb
  | .atom _, .leaf (_ :: _), _, _, _, _, _, _, h => by simp [pr, word] at h
  | .node _ _, .atom _, _, _, _, _, _, _, h => by simp [pr] at h
  | .atom _, .node _ _, _, _, _, _, _, _, h => by simp [pr] at h
  | .node h1 c1, .node h2 c2, r, s, ha, hb, hr, hs, h => by
      simp [pr] at h
      have w := word_inj h1 h2 _ _ (prs_sep c1 r) (prs_sep c2 s) h
      have c := prs_inj c1 c2 r s (by simpa [wf] using ha) (by simpa [wf] using hb) hr hs w.2
      exact ⟨by rw [w.1, c.1], c.2⟩
  | .atom a, .atom b, r, s, ha, hb, hr, hs, h => by
      simp [pr] at h
      have c := pr_inj a b (cl :: r) (cl :: s) (by simpa [wf] using ha) (by simpa [wf] using hb) (by simp [IsSep]) (by simp [IsSep]) h
      have := c.2
      simp at this
      exact ⟨by rw [c.1], this⟩
theorem prs_inj : ∀ (a b : L) (r s : List Tk), wfs a → wfs b → IsSep r → IsSep s → prs a ++ r = prs b ++ s → a = b ∧ r = s
  | .nil, .nil, r, s, _, _, _, _, h => by simpa [prs] using h
  | .nil, .cons _ _, _, _, _, _, _, _, h => by simp [prs] at h
  | .cons _ _, .nil, _, _, _, _, _, _, h => by simp [prs] at h
  | .cons x xs, .cons y ys, r, s, ha, hb, hr, hs, h => by
      simp [prs] at h
      simp [wfs] at ha hb
      have c := pr_inj x y _ _ ha.1 hb.1 (prs_sep xs r) (prs_sep ys s) h
      have d := prs_inj xs ys r s ha.2 hb.2 hr hs c.2
      exact ⟨by rw [c.1, d.1], d.2⟩
end
theorem prefix_injective (a b : T) (ha : wf a) (hb : wf b) (h : pr a = pr b) : a = b :=
  (pr_inj a b [] [] ha hb (by simp [IsSep]) (by simp [IsSep]) (by simpa using h)).1
