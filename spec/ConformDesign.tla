--------------------------- MODULE ConformDesign ---------------------------
(***************************************************************************)
(* Restoration of edge conformity as a state machine, on a closed surface  *)
(* of two quadrilateral patches glued along all four (split) edges.        *)
(* Coordinates are in units of the finest level.  A user step refines any  *)
(* elements (isotropically or along one axis) and coarsens any families at *)
(* once; then passes of the restoration run until nothing is left to do.   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS N,         \* elements per direction at the finest level (power of two)
          Rule,      \* "both": as in the code; "parent": only the neighbour rule
          Steps,     \* number of user steps
          MaxRef     \* elements refined by one user step, at most

Patch == {1, 2}
VARIABLES mesh, phase, step, before

vars == <<mesh, phase, step, before>>

\* an element <<x0, x1, y0, y1>>
Whole == <<0, N, 0, N>>
CutX(c) == LET m == (c[1] + c[2]) \div 2 IN {<<c[1], m, c[3], c[4]>>, <<m, c[2], c[3], c[4]>>}
CutY(c) == LET m == (c[3] + c[4]) \div 2 IN {<<c[1], c[2], c[3], m>>, <<c[1], c[2], m, c[4]>>}
Cut(c, d) == IF d = "x" THEN CutX(c) ELSE IF d = "y" THEN CutY(c) ELSE UNION {CutY(e) : e \in CutX(c)}
CanX(c) == c[2] - c[1] > 1
CanY(c) == c[4] - c[3] > 1
Can(c, d) == IF d = "x" THEN CanX(c) ELSE IF d = "y" THEN CanY(c) ELSE CanX(c) /\ CanY(c)

Sides == {"l", "r", "b", "t"}
On(c, s) == CASE s = "l" -> c[1] = 0 [] s = "r" -> c[2] = N [] s = "b" -> c[3] = 0 [] s = "t" -> c[4] = N
Seg(c, s) == IF s \in {"l", "r"} THEN <<c[3], c[4]>> ELSE <<c[1], c[2]>>
Segs(m, s) == {Seg(c, s) : c \in {k \in m : On(k, s)}}
Pts(m, s) == UNION {{g[1], g[2]} : g \in Segs(m, s)}

Conforming(m) == \A s \in Sides : Segs(m[1], s) = Segs(m[2], s)

\* what a pass flags: elements whose side holds an unmatched vertex of the other patch
Hit(g, ps, segs) ==
  \E v \in ps : \/ /\ Rule \in {"both", "parent"}
                   /\ \E a, b \in segs : a[2] = v /\ b[1] = v /\ a[1] + b[2] = g[1] + g[2]
                \/ Rule = "both" /\ 2 * v = g[1] + g[2]
Flags(m, p) == {<<c, s>> \in m[p] \X Sides :
   On(c, s) /\ LET q == 3 - p IN Hit(Seg(c, s), Pts(m[q], s) \ Pts(m[p], s), Segs(m[q], s))}
Todo(m) == \E p \in Patch : Flags(m, p) # {}

\* two flags of different direction on one element: the later one wins
Choices(F) == {g \in [{f[1] : f \in F} -> {"x", "y"}] :
   \A c \in DOMAIN g : \E f \in F : f[1] = c /\ g[c] = (IF f[2] \in {"l", "r"} THEN "y" ELSE "x")}
Refined(m, g) == (m \ DOMAIN g) \cup UNION {Cut(c, g[c]) : c \in DOMAIN g}

Init == mesh = [r \in Patch |-> {Whole}] /\ phase = "idle" /\ step = 0 /\ before = mesh

Dyadic(a, b) == b > a /\ N % (b - a) = 0 /\ a % (b - a) = 0
Families(m) == {<<c, d>> \in {<<a[1], b[2], a[3], b[4]>> : a, b \in m} \X {"x", "y", "i"} :
   Dyadic(c[1], c[2]) /\ Dyadic(c[3], c[4]) /\ Can(c, d) /\ Cut(c, d) \subseteq m}

RefSets(m) == {R \in SUBSET m : Cardinality(R) <= MaxRef}
User == /\ phase = "idle" /\ step < Steps
        /\ \E p \in Patch : \E R \in RefSets(mesh[p]), d \in {"x", "y", "i"}, K \in {{}} \cup {{f} : f \in Families(mesh[3 - p])} :
             /\ \A c \in R : Can(c, d)
             /\ mesh' = [r \in Patch |-> IF r = p THEN Refined(mesh[p], [c \in R |-> d])
                                ELSE (mesh[r] \ UNION {Cut(f[1], f[2]) : f \in K}) \cup {f[1] : f \in K}]
        /\ step' = step + 1 /\ phase' = "restore" /\ before' = mesh'

Pass == /\ phase = "restore" /\ Todo(mesh)
        /\ \E g1 \in Choices(Flags(mesh, 1)), g2 \in Choices(Flags(mesh, 2)) :
              mesh' = [mesh EXCEPT ![1] = Refined(@, g1), ![2] = Refined(@, g2)]
        /\ UNCHANGED <<phase, step, before>>
Stop == /\ phase = "restore" /\ ~Todo(mesh) /\ phase' = "idle" /\ UNCHANGED <<mesh, step, before>>

Next == User \/ Pass \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Pass \/ Stop)

\* no overlap, nothing lost
Area(m) == {<<x, y>> \in (0..N-1) \X (0..N-1) : \E c \in m : c[1] <= x /\ x < c[2] /\ c[3] <= y /\ y < c[4]}
Covers == \A p \in Patch : Area(mesh[p]) = (0..N-1) \X (0..N-1)
Restored == phase = "idle" => Conforming(mesh)
\* restoration only refines, and does nothing on a conforming mesh
OnlyRefines == phase = "restore" => \A p \in Patch : \A c \in mesh[p] :
   \E b \in before[p] : b[1] <= c[1] /\ c[2] <= b[2] /\ b[3] <= c[3] /\ c[4] <= b[4]
Minimal == phase = "restore" /\ Conforming(before) => mesh = before
Terminates == []<>(phase = "idle")
=============================================================================
