---------------------------- MODULE RefineDesign ---------------------------
(***************************************************************************)
(* Aspect-ratio passes followed by global refinement, on one patch of      *)
(* elements in a row.  Elements have extents ex, ey (integers, halved by a *)
(* cut); a pass cuts every element that is too long along its long         *)
(* direction and may be followed by cuts needed for conformity of the      *)
(* border.  All initial extents up to E, limits L/100.                     *)
(***************************************************************************)
EXTENDS Refine, TLC

CONSTANTS E,        \* extents of the roots (integers in units of the finest cut)
          Lims, MaxPass, K,
          Dir       \* "long": as in the code; "first": always along the first direction

VARIABLES T, lim, pass, phase, k, shape
vars == <<T, lim, pass, phase, k, shape>>

Cell(e) == [rc |-> 0, ext |-> e, m |-> 0, bd |-> 0]
Init == /\ T \in [{<<1>>} -> {Cell(<<a, b>>) : a \in E, b \in E}]
        /\ lim \in Lims /\ pass = 0 /\ phase = "aspect" /\ k = 0 /\ shape = {}

Half(e, rc) == <<IF rc \in {1, 3} THEN e[1] \div 2 ELSE e[1], IF rc \in {2, 3} THEN e[2] \div 2 ELSE e[2]>>
CutAll(t, f) == \* f: active paths -> case
  [q \in DOMAIN t \cup UNION {{Append(p, c) : c \in Kids(f[p])} : p \in DOMAIN f} |->
     IF q \in DOMAIN f THEN [t[q] EXCEPT !.rc = f[q]] ELSE IF q \in DOMAIN t THEN t[q] ELSE Cell(Half(t[Parent(q)].ext, f[Parent(q)]))]
TooLong(e) == 100 * e[1] > lim * e[2] \/ 100 * e[2] > lim * e[1]
Bad == {q \in Active(T) : TooLong(T[q].ext)}
DirOf(e) == IF Dir = "long" THEN LongDir(e) ELSE 1
Aspect == /\ phase = "aspect" /\ pass < MaxPass /\ Bad # {}
          /\ T' = CutAll(T, [q \in Bad |-> DirOf(T[q].ext)]) /\ pass' = pass + 1
          /\ UNCHANGED <<lim, phase, k, shape>>
Done == phase = "aspect" /\ (pass = MaxPass \/ Bad = {}) /\ phase' = "global" /\ shape' = Active(T) /\ UNCHANGED <<T, lim, pass, k>>
Global == /\ phase = "global" /\ k < K /\ T' = CutAll(T, [q \in Active(T) |-> 3]) /\ k' = k + 1 /\ UNCHANGED <<lim, pass, phase, shape>>
Next == Aspect \/ Done \/ Global
Spec == Init /\ [][Next]_vars

Tree == Hierarchy(T)
Counted == phase = "global" => Active(T) = Split(shape, k, 0..3)
Slack(e) == ~TooLong(e)
ShapeOK == phase = "global" /\ k = 0 => \A q \in Active(T) : Slack(T[q].ext) \/ Len(q) > MaxPass
AlongLong == \A q \in Paths(T) : T[q].rc \in 1..2 => T[q].rc = LongDir(T[q].ext) /\ TooLong(T[q].ext)
\* in exact arithmetic one pass per halving is enough
Enough == phase = "global" /\ pass < MaxPass => \A q \in shape : Slack(T[q].ext)
=============================================================================
