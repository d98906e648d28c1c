/- The lemmas that tie the steps of clear_dot_dot (proofs/dot_clear.c, dot_before.c) to what a path
   means. A path is a list of characters; its components are what stands between slashes, empty
   ones and dots left out; it names the directory reached from the root by entering each component
   and going back up at each dot-dot (none: it leaves the root). -/
abbrev Comp := List Char
abbrev dd : Comp := ['.', '.']

/-- what stands between the slashes -/
def split : List Char → List Comp
  | [] => [[]]
  | c :: cs => if c = '/' then [] :: split cs else
      match split cs with
      | [] => [[c]]
      | h :: t => (c :: h) :: t

def real (c : Comp) : Bool := c ≠ [] && c ≠ ['.']
def comps (p : List Char) : List Comp := (split p).filter real

/-- what is idle: only slashes and whole dot components, as IDLE of the contracts says index by index -/
def idle (p : List Char) : Prop := comps p = []

def step : Option (List Comp) → Comp → Option (List Comp)
  | none, _ => none
  | some s, c => if c = dd then (match s with | [] => none | _ :: t => some t) else some (c :: s)

def resolve (l : List Comp) : Option (List Comp) := l.foldl step (some [])

theorem split_ne (p : List Char) : split p ≠ [] := by
  cases p with
  | nil => simp [split]
  | cons c cs =>
    simp only [split]
    split
    · simp
    · split <;> simp

theorem split_slash (x y : List Char) : split (x ++ '/' :: y) = split x ++ split y := by
  induction x with
  | nil => simp [split]
  | cons c cs ih =>
    simp only [List.cons_append, split, ih]
    split
    · simp
    · cases h : split cs with
      | nil => exact absurd h (split_ne cs)
      | cons a b => simp

theorem comps_slash (x y : List Char) : comps (x ++ '/' :: y) = comps x ++ comps y := by
  simp [comps, split_slash]

theorem step_none (l : List Comp) : l.foldl step none = none := by
  induction l with
  | nil => rfl
  | cons c cs ih => simpa [List.foldl, step] using ih

/-- a component and the dot-dot after it cancel -/
theorem resolve_cancel (xs ys : List Comp) (c : Comp) (h : c ≠ dd) :
    resolve (xs ++ c :: dd :: ys) = resolve (xs ++ ys) := by
  simp only [resolve, List.foldl_append, List.foldl_cons]
  cases xs.foldl step (some []) with
  | none => simp [step]
  | some s => simp [step, h]

/-- a component has no slash -/
theorem split_plain (c : Comp) (h : '/' ∉ c) : split c = [c] := by
  induction c with
  | nil => rfl
  | cons a b ih =>
    simp only [List.mem_cons, not_or] at h
    simp [split, ih h.2, Ne.symm h.1]

theorem comps_plain (c : Comp) (h : '/' ∉ c) (r : real c = true) : comps c = [c] := by
  simp [comps, split_plain c h, r]

theorem comps_dd : comps dd = [dd] := by decide

/-- the step of clear_dot_dot: X/c/idle/../Y becomes X/Y, with the same meaning -/
theorem cut_keeps (X c I Y : List Char) (hs : '/' ∉ c) (hr : real c = true) (hd : c ≠ dd) (hi : idle I) :
    resolve (comps (X ++ '/' :: (c ++ '/' :: (I ++ '/' :: (dd ++ '/' :: Y))))) = resolve (comps (X ++ '/' :: Y)) := by
  simp only [comps_slash, comps_plain c hs hr, comps_dd]
  rw [show comps I = [] from hi]
  simpa using resolve_cancel (comps X) (comps Y) c hd

/-- the same with nothing idle between them -/
theorem cut_keeps' (X c Y : List Char) (hs : '/' ∉ c) (hr : real c = true) (hd : c ≠ dd) :
    resolve (comps (X ++ '/' :: (c ++ '/' :: (dd ++ '/' :: Y)))) = resolve (comps (X ++ '/' :: Y)) := by
  simp only [comps_slash, comps_plain c hs hr, comps_dd]
  simpa using resolve_cancel (comps X) (comps Y) c hd

/-- the same where the component starts the path -/
theorem cut_keeps_first (c I Y : List Char) (hs : '/' ∉ c) (hr : real c = true) (hd : c ≠ dd) (hi : idle I) :
    resolve (comps (c ++ '/' :: (I ++ '/' :: (dd ++ '/' :: Y)))) = resolve (comps ('/' :: Y)) := by
  have e : comps ('/' :: Y) = comps Y := by simpa [comps, split, real] using comps_slash [] Y
  simp only [comps_slash, comps_plain c hs hr, comps_dd, e]
  rw [show comps I = [] from hi]
  simpa using resolve_cancel [] (comps Y) c hd

theorem cut_keeps_first' (c Y : List Char) (hs : '/' ∉ c) (hr : real c = true) (hd : c ≠ dd) :
    resolve (comps (c ++ '/' :: (dd ++ '/' :: Y))) = resolve (comps ('/' :: Y)) := by
  have e : comps ('/' :: Y) = comps Y := by simpa [comps, split, real] using comps_slash [] Y
  simp only [comps_slash, comps_plain c hs hr, comps_dd, e]
  simpa using resolve_cancel [] (comps Y) c hd

/-- the last step: X/c/idle/.. becomes X -/
theorem cut_keeps_end (X c I : List Char) (hs : '/' ∉ c) (hr : real c = true) (hd : c ≠ dd) (hi : idle I) :
    resolve (comps (X ++ '/' :: (c ++ '/' :: (I ++ '/' :: dd)))) = resolve (comps X) := by
  simp only [comps_slash, comps_plain c hs hr, comps_dd]
  rw [show comps I = [] from hi]
  simpa using resolve_cancel (comps X) [] c hd

theorem cut_keeps_end' (X c : List Char) (hs : '/' ∉ c) (hr : real c = true) (hd : c ≠ dd) :
    resolve (comps (X ++ '/' :: (c ++ '/' :: dd))) = resolve (comps X) := by
  simp only [comps_slash, comps_plain c hs hr, comps_dd]
  simpa using resolve_cancel (comps X) [] c hd

/-- what is refused: a dot-dot with nothing before it to take back leaves the root -/
theorem refused_leaves (I Y : List Char) (hi : idle I) : resolve (comps (I ++ '/' :: (dd ++ '/' :: Y))) = none := by
  simp only [comps_slash, comps_dd]
  rw [show comps I = [] from hi]
  simpa [resolve, step] using step_none (comps Y)

theorem refused_leaves_first (Y : List Char) : resolve (comps (dd ++ '/' :: Y)) = none := by
  simp only [comps_slash, comps_dd]
  simpa [resolve, step] using step_none (comps Y)

/-- what is left is entered component by component: the walk of lookup_path.c -/
theorem done_walks (l : List Comp) (h : dd ∉ l) : resolve l = some l.reverse := by
  have go : ∀ (l : List Comp) (s : List Comp), dd ∉ l → l.foldl step (some s) = some (l.reverse ++ s) := by
    intro l
    induction l with
    | nil => intro s _; simp
    | cons c cs ih =>
      intro s h
      simp only [List.mem_cons, not_or] at h
      have hc : c ≠ dd := fun e => h.1 e.symm
      simp [List.foldl, step, hc, ih (c :: s) h.2]
  simpa [resolve] using go l [] h

/-- slashes and whole dots, index by index, are idle: the two ways idle regions grow -/
theorem idle_nil : idle [] := by unfold idle; decide
theorem idle_slash (I : List Char) (h : idle I) : idle ('/' :: I) := by
  have e := comps_slash [] I
  rw [List.nil_append, show comps I = [] from h] at e
  exact e
theorem idle_dot (I : List Char) (h : idle I) : idle ('.' :: '/' :: I) := by
  have e := comps_slash ['.'] I
  rw [show comps I = [] from h] at e
  exact e
theorem idle_dot_end : idle ['.'] := by unfold idle; decide
