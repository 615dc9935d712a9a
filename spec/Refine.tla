------------------------------- MODULE Refine ------------------------------
(***************************************************************************)
(* Global refinement of a surface mesh.  The refinement hierarchy is a     *)
(* function from paths to records [rc, p, m, ext, bd]:                     *)
(*   rc   0 active, 1 cut along the first direction, 2 along the second,   *)
(*        3 both (3D); 0/1 in 2D                                           *)
(*   p    corners (integer coordinates), m boundary id, ext extents,       *)
(*   bd   the element touches the border of its patch                      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

Kids(rc) == CASE rc = 0 -> {} [] rc = 3 -> 0..3 [] OTHER -> 0..1
Paths(T) == DOMAIN T
Active(T) == {q \in Paths(T) : T[q].rc = 0}
Parent(q) == SubSeq(q, 1, Len(q) - 1)

\* every element but the roots is a child of a refined one, and all children exist
Hierarchy(T) == /\ \A q \in Paths(T) : Len(q) = 1 \/ (Parent(q) \in Paths(T) /\ q[Len(q)] \in Kids(T[Parent(q)].rc))
                /\ \A q \in Paths(T) : \A k \in Kids(T[q].rc) : Append(q, k) \in Paths(T)
Ids(T) == \A q \in Paths(T) : T[q].m = T[<<q[1]>>].m

\* k-fold splitting of every element of the set S
RECURSIVE Split(_, _, _)
Split(S, k, kids) == IF k = 0 THEN S ELSE Split({Append(q, c) : q \in S, c \in kids}, k - 1, kids)

\* corner (jx, jy) of child c, times four
Lat(p, a, b, d) == (2 - a) * (2 - b) * p[1][d] + a * (2 - b) * p[2][d] + (2 - a) * b * p[3][d] + a * b * p[4][d]
ChildLat(rc, c, jx, jy) == CASE rc = 3 -> <<(c % 2) + jx, (c \div 2) + jy>>
                             [] rc = 1 -> <<c + jx, 2 * jy>>
                             [] rc = 2 -> <<2 * jx, c + jy>>
Placed3(T) == \A q \in Paths(T) : \A c \in Kids(T[q].rc) : \A jx, jy \in 0..1 : \A d \in 1..3 :
   LET w == ChildLat(T[q].rc, c, jx, jy) IN 4 * T[Append(q, c)].p[1 + jx + 2 * jy][d] = Lat(T[q].p, w[1], w[2], d)
Placed2(T) == \A q \in Paths(T) : \A c \in Kids(T[q].rc) : \A j \in 0..1 : \A d \in 1..2 :
   2 * T[Append(q, c)].p[1 + j][d] = (IF c + j <= 1 THEN T[q].p[1][d] ELSE T[q].p[2][d]) + (IF c + j >= 1 THEN T[q].p[2][d] ELSE T[q].p[1][d])

\* elongation: the extent along one direction exceeds limit/100 times the other
Long(e, lim) == 100 * e[1] > lim * e[2] + lim \/ 100 * e[2] > lim * e[1] + lim
Short(e, lim) == 100 * e[1] < lim * e[2] - lim /\ 100 * e[2] < lim * e[1] - lim
LongDir(e) == IF e[1] >= e[2] THEN 1 ELSE 2
Passes == 10
\* the mesh before the global steps
Shaped(T, lim) == \A q \in Paths(T) :
   /\ T[q].rc = 0 => ~Long(T[q].ext, lim) \/ Len(q) > Passes
   /\ T[q].rc = 3 => T[q].bd = 1
   /\ T[q].rc \in 1..2 /\ T[q].bd = 0 => T[q].rc = LongDir(T[q].ext) /\ ~Short(T[q].ext, lim)
   /\ Len(q) = 1 /\ Long(T[q].ext, lim) => T[q].rc = LongDir(T[q].ext)
=============================================================================
