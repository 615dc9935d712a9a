---------------------------- MODULE VoxelDesign ----------------------------
(***************************************************************************)
(* All bodies of a K^d lattice, grown and carved cell by cell.             *)
(* Invariants: the exact fields used as references obey the identities     *)
(* that the boundary element method discretises.                           *)
(*   Angle   "count" | "half" (one half everywhere) | "faces" (from the    *)
(*           number of faces meeting at the point)                         *)
(*   Normal  "outward" | "axis" (not turned outwards)                      *)
(*   Basis   "harmonic" | "all" (fields with sources)                      *)
(***************************************************************************)
EXTENDS Voxel, TLC
CONSTANTS K, D, Angle, Normal, Basis
VARIABLES body
vars == <<body>>
Cells == [1..D -> 0..K - 1]
S == 2
Grid == [1..D -> 0..S * K]
Init == body = {}
Add == \E c \in Cells \ body : body' = body \cup {c}
Spec == Init /\ [][Add]_vars

Opposite(b) == Cells \ b
\* lattice with a margin outside counts as outside for the body and for its opposite: compare inside only
Inner == {x \in Grid : \A a \in 1..D : x[a] > 0 /\ x[a] < S * K}
Full == 2^D
FacesAt(x) == {f \in Faces(body) : \A a \in 1..D :
                IF a = f[2] THEN x[a] = S * (f[1][a] + f[3]) ELSE x[a] >= S * f[1][a] /\ x[a] <= S * f[1][a] + S}
Alpha(x) == CASE Angle = "count" -> Count(body, x, S)
              [] Angle = "half" -> IF Boundary(body, x, S) THEN Full \div 2 ELSE Count(body, x, S)
              [] Angle = "faces" -> IF Boundary(body, x, S) THEN Full \div Cardinality({<<f[2], f[3]>> : f \in FacesAt(x)}) ELSE Count(body, x, S)
\* every cell has 2^d corners, each of them the 2^d-th part of a full angle
Corners == MapThenSumSet(LAMBDA x : Alpha(x), {x \in Grid : \A a \in 1..D : x[a] % S = 0}) = Full * Cardinality(body)
Complement == \A x \in Inner : Alpha(x) + Count(Opposite(body), x, S) = Full
\* points inside a face see one half
Flat == \A x \in Grid : (body # {} /\ OnFace(body, x, S)) => Alpha(x) = Full \div 2

M(c, e) == <<c, e>>
H2 == {{M(1, <<1, 0>>)}, {M(1, <<0, 1>>)}, {M(1, <<1, 1>>)}, {M(1, <<2, 0>>), M(-1, <<0, 2>>)}, {M(1, <<3, 0>>), M(-3, <<1, 2>>)}, {M(-1, <<0, 3>>), M(3, <<2, 1>>)}}
H3 == {{M(1, <<1, 0, 0>>)}, {M(1, <<0, 0, 1>>)}, {M(1, <<0, 1, 1>>)}, {M(1, <<2, 0, 0>>), M(-1, <<0, 2, 0>>)}, {M(1, <<2, 0, 0>>), M(1, <<0, 2, 0>>), M(-2, <<0, 0, 2>>)}, {M(1, <<1, 1, 1>>)}}
Polys == (IF D = 2 THEN H2 ELSE H3) \cup (IF Basis = "all" THEN {{M(1, IF D = 2 THEN <<2, 0>> ELSE <<2, 0, 0>>)}} ELSE {})
Deg3 == 3
\* integrals over unit faces by Simpson's rule, exact for the products that occur: weights 1 4 1 in every direction
Simp(f) == {x \in Grid : \A a \in 1..D : IF a = f[2] THEN x[a] = S * (f[1][a] + f[3]) ELSE x[a] \in S * f[1][a]..S * f[1][a] + S}
W(f, x) == FoldFunctionOnSet(LAMBDA p, q : p * q, 1, [a \in 1..D |-> IF a # f[2] /\ x[a] % S = 1 THEN 4 ELSE 1], 1..D)
Out(f) == IF Normal = "outward" THEN 2 * f[3] - 1 ELSE 1
Over(g(_, _)) == MapThenSumSet(LAMBDA f : MapThenSumSet(LAMBDA x : W(f, x) * g(f, x), Simp(f)), Faces(body))
Dn(p, f, x) == Out(f) * Slope(p, x, f[2], S, Deg3)
\* a field without sources has no net flux; and the identity for the constant and for the linear potentials
NoFlux == body # {} => \A p \in Polys : Over(LAMBDA f, x : Dn(p, f, x)) = 0
\* reciprocity of two fields, one of them linear
Reciprocity == body # {} => \A p \in Polys : \A a \in 1..D :
   LET u == {<<1, [k \in 1..D |-> IF k = a THEN 1 ELSE 0]>>}
   IN (Cardinality(p) > 0 /\ \A t \in p : Deg(t[2]) <= 2) =>
        Over(LAMBDA f, x : Value(u, x, S, 1) * Dn(p, f, x) - Value(p, x, S, Deg3) * Out(f) * Slope(u, x, f[2], S, 1)) = 0
AllHarmonic == \A p \in Polys : Harmonic(p, D, Deg3)
=============================================================================
