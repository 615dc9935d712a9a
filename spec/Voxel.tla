------------------------------- MODULE Voxel --------------------------------
(***************************************************************************)
(* Bodies made of unit cells of the lattice Z^d, points with rational      *)
(* coordinates (integers in units 1/S), polynomials with integer           *)
(* coefficients.  Everything a boundary element solver should return on    *)
(* such a body is an exact rational number:                                *)
(*  - the interior solid-angle fraction at any boundary point,             *)
(*  - potential, normal derivative and gradient of a harmonic polynomial.  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, FiniteSetsExt, Functions, Folds

Dim(body) == Len(CHOOSE c \in body : TRUE)
Sides(d) == [1..d -> {0, 1}]

\* the cell that contains the points next to x on the given side of every axis
CellAt(x, sd, S) == [a \in DOMAIN x |-> IF x[a] % S = 0 /\ sd[a] = 0 THEN x[a] \div S - 1 ELSE x[a] \div S]
\* interior solid angle at x in units of 1/2^d
Count(body, x, S) == Cardinality({sd \in Sides(Len(x)) : CellAt(x, sd, S) \in body})
\* the body is convex near x: the occupied directions form a box
Convex(body, x, S) == LET O == {sd \in Sides(Len(x)) : CellAt(x, sd, S) \in body} IN
   Cardinality(O) = FoldFunction(LAMBDA p, q : p * q, 1, [a \in DOMAIN x |-> Cardinality({o[a] : o \in O})])
Boundary(body, x, S) == Count(body, x, S) \notin {0, 2^Len(x)}

Shift(c, a, k) == [c EXCEPT ![a] = c[a] + k]
\* faces: <<cell, axis, side>>, side 1 when the outward normal is in direction of the axis, otherwise 0
Faces(body) == {f \in body \X (1..Dim(body)) \X {0, 1} : Shift(f[1], f[2], 2 * f[3] - 1) \notin body}

\* the boundary face that contains the point m (units 1/S) in its interior
FaceOf(body, m, S) ==
  LET a == CHOOSE a \in DOMAIN m : m[a] % S = 0
      lo == CellAt(m, [k \in DOMAIN m |-> 0], S)
      hi == CellAt(m, [k \in DOMAIN m |-> 1], S)
  IN IF lo \in body THEN <<lo, a, 1>> ELSE <<hi, a, 0>>
OnFace(body, m, S) == /\ Cardinality({a \in DOMAIN m : m[a] % S = 0}) = 1
                      /\ FaceOf(body, m, S) \in Faces(body)

(* ---- shape ---- *)
Adjacent(c, b) == \E a \in DOMAIN c : \E k \in {-1, 1} : b = Shift(c, a, k)
RECURSIVE Grow(_, _)
Grow(R, body) == LET N == {c \in body \ R : \E b \in R : Adjacent(c, b)} IN IF N = {} THEN R ELSE Grow(R \cup N, body)
Connected(body) == body = {} \/ Grow({CHOOSE c \in body : TRUE}, body) = body
\* around every vertex both the cells inside and the cells outside are connected: the surface is a manifold
Vertices(body) == UNION {{[a \in DOMAIN c |-> c[a] + sd[a]] : sd \in Sides(Len(c))} : c \in body}
Around(v) == {[a \in DOMAIN v |-> v[a] - sd[a]] : sd \in Sides(Len(v))}
Manifold(body) == \A v \in Vertices(body) : Connected(Around(v) \cap body) /\ Connected(Around(v) \ body)

(* ---- polynomials: sets of <<coefficient, exponents>> with distinct exponents ---- *)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Prod(x, e) == FoldFunctionOnSet(LAMBDA p, q : p * q, 1, [a \in DOMAIN x |-> Pow(x[a], e[a])], DOMAIN x)
Deg(e) == MapThenSumSet(LAMBDA a : e[a], DOMAIN e)
\* S^D p(x / S)
Value(p, x, S, D) == MapThenSumSet(LAMBDA t : t[1] * Prod(x, t[2]) * Pow(S, D - Deg(t[2])), p)
\* S^(D-1) dp/dx_a (x / S)
Slope(p, x, a, S, D) == MapThenSumSet(LAMBDA t : IF t[2][a] = 0 THEN 0
                          ELSE t[1] * t[2][a] * Prod(x, Shift(t[2], a, -1)) * Pow(S, D - Deg(t[2])), p)
\* coefficient of a monomial in the Laplacian
LapCoef(p, e) == MapThenSumSet(LAMBDA a : MapThenSumSet(LAMBDA t : IF t[2] = Shift(e, a, 2) THEN t[1] * t[2][a] * (t[2][a] - 1) ELSE 0, p), DOMAIN e)
Harmonic(p, d, D) == \A e \in [1..d -> 0..D] : Deg(e) <= D => LapCoef(p, e) = 0
=============================================================================
