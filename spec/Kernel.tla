------------------------------- MODULE Kernel ------------------------------
(***************************************************************************)
(* Singular integrals over one element.                                    *)
(*                                                                         *)
(* An element is the image of the square [0,4]^2 (quarter units) under a   *)
(* biquadratic map given by nine lattice points P (u fastest), divided by  *)
(* the denominator den; e is the collocation point, in quarters.  Three    *)
(* things are integrated, for every shape function of order 0, 1, 2:       *)
(*   V  finite part of  -(1/4pi) grad(dG/dn),  degree -1, odd under        *)
(*      reflections and under a change of orientation                      *)
(*   W  finite part of  (1/4pi) r/|r|^3,  degree 0                          *)
(*   b  free-term vector of the hypersingular identity,  degree -1         *)
(* The module states how they transform when the element is moved, turned, *)
(* reflected, dilated, renumbered, cut or shrunk, and their exact values   *)
(* where these are elementary.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Abs_(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Sm(S, F(_)) == MapThenSumSet(F, S)
RDiv(a, n) == IF a >= 0 THEN (2 * a + n) \div (2 * n) ELSE -((-2 * a + n) \div (2 * n))
Ix == 1..3
V3 == 1..3
Node(i, j) == 3 * (j - 1) + i      \* i along u

(******************************* geometry **********************************)
\* quadratic Lagrange functions at k eighths, times 32
LN(k) == <<(k - 4) * (k - 8), 2 * k * (8 - k), k * (k - 4)>>
\* image of a point given in eighths, times 1024
Pt(P, ku, kv) == [c \in V3 |-> Sm(Ix \X Ix, LAMBDA p : LN(ku)[p[1]] * LN(kv)[p[2]] * P[Node(p[1], p[2])][c])]
FromGrid(f(_, _)) == [n \in 1..9 |-> f(((n - 1) % 3) + 1, ((n - 1) \div 3) + 1)]

\* the part a = <<u0, u1, v0, v1>> (quarters) as an element of its own
Sub(C, a) == [P |-> FromGrid(LAMBDA i, j : Pt(C.P, 2 * a[1] + (i - 1) * (a[2] - a[1]), 2 * a[3] + (j - 1) * (a[4] - a[3]))),
              e |-> <<((C.e[1] - a[1]) * 4) \div (a[2] - a[1]), ((C.e[2] - a[3]) * 4) \div (a[4] - a[3])>>,
              den |-> 1024 * C.den]
Iv(x, q) == {p \in {<<0, x>>, <<x, 4>>} : p[1] < p[2]}
\* the parts that meet at the collocation point, each has it at a corner
Pieces(C) == {<<p[1][1], p[1][2], p[2][1], p[2][2]>> : p \in Iv(C.e[1], 0) \X Iv(C.e[2], 0)}
\* parts that contain a neighbourhood of the collocation point
Cores(C) == {a \in (0..4) \X (0..4) \X (0..4) \X (0..4) :
  /\ a # <<0, 4, 0, 4>>
  /\ a[1] <= C.e[1] /\ C.e[1] <= a[2] /\ a[1] < a[2] /\ a[3] <= C.e[2] /\ C.e[2] <= a[4] /\ a[3] < a[4]
  /\ a[1] = C.e[1] => a[1] = 0
  /\ a[2] = C.e[1] => a[2] = 4
  /\ a[3] = C.e[2] => a[3] = 0
  /\ a[4] = C.e[2] => a[4] = 4
  /\ ((C.e[1] - a[1]) * 4) % (a[2] - a[1]) = 0 /\ ((C.e[2] - a[3]) * 4) % (a[4] - a[3]) = 0}

\* similarities: integer matrices with orthogonal rows of length k
MV(M, v) == [i \in V3 |-> M[i][1] * v[1] + M[i][2] * v[2] + M[i][3] * v[3]]
Det(M) == M[1][1] * (M[2][2] * M[3][3] - M[2][3] * M[3][2]) - M[1][2] * (M[2][1] * M[3][3] - M[2][3] * M[3][1])
        + M[1][3] * (M[2][1] * M[3][2] - M[2][2] * M[3][1])
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
IsSim(M, k) == \A i, j \in V3 : Dot(M[i], M[j]) = IF i = j THEN k * k ELSE 0
Sim(C, M, t) == [C EXCEPT !.P = [n \in 1..9 |-> [c \in V3 |-> MV(M, C.P[n])[c] + t[c]]]]

\* renumberings: quarter turn and exchange of the two parameters
OldIJ(d, i, j) == IF d = "swap" THEN <<j, i>> ELSE <<4 - j, i>>
Dih(C, d) == [C EXCEPT !.P = FromGrid(LAMBDA i, j : C.P[Node(OldIJ(d, i, j)[1], OldIJ(d, i, j)[2])]),
                       !.e = IF d = "swap" THEN <<C.e[2], C.e[1]>> ELSE <<C.e[2], 4 - C.e[1]>>]

(*************************** laws of the values ****************************)
Pow2(o) == CASE o = 0 -> 1 [] o = 1 -> 4 [] o = 2 -> 9
\* position (quarters) of node m of order o, nodes sorted with u fastest
NodeAt(o, m) == CASE o = 0 -> <<2, 2>>
                  [] o = 1 -> <<4 * ((m - 1) % 2), 4 * ((m - 1) \div 2)>>
                  [] o = 2 -> <<2 * ((m - 1) % 3), 2 * ((m - 1) \div 3)>>
\* node of the old element that becomes node m
OldNode(d, o, m) == CHOOSE n \in 1..Pow2(o) :
  NodeAt(o, n) = IF d = "swap" THEN <<NodeAt(o, m)[2], NodeAt(o, m)[1]>> ELSE <<4 - NodeAt(o, m)[2], NodeAt(o, m)[1]>>
DihSign(d) == IF d = "swap" THEN -1 ELSE 1

\* one-dimensional shape function i of order o at k eighths, times ShDen
ShDen(o) == CASE o = 0 -> 1 [] o = 1 -> 8 [] o = 2 -> 32
Sh1(o, i, k) == CASE o = 0 -> 1 [] o = 1 -> (IF i = 1 THEN 8 - k ELSE k) [] o = 2 -> LN(k)[i]
Ord1(o) == CASE o = 0 -> 1 [] o = 1 -> 2 [] o = 2 -> 3
I1(o, m) == ((m - 1) % Ord1(o)) + 1
J1(o, m) == ((m - 1) \div Ord1(o)) + 1
\* value x times shape function m of order o at the point (ku, kv) eighths
Times(x, o, m, ku, kv) == RDiv(RDiv(x * Sh1(o, I1(o, m), ku), ShDen(o)) * Sh1(o, J1(o, m), kv), ShDen(o))
\* contribution of a part's values X (order o) to shape function m of the whole
FromPart(X, a, o, m, c) == Sm(1..Pow2(o), LAMBDA n :
  Times(X[n][c], o, m, 2 * a[1] + (NodeAt(o, n)[1] * (a[2] - a[1])) \div 2, 2 * a[3] + (NodeAt(o, n)[2] * (a[4] - a[3])) \div 2))
\* a function of order p is the interpolation of its values in order o > p
FromOrder(X, o, p, m, c) == Sm(1..Pow2(o), LAMBDA n : Times(X[n][c], p, m, 2 * NodeAt(o, n)[1], 2 * NodeAt(o, n)[2]))

(************************** elementary values ******************************)
\* roots and quotients in fixed point, inside 32 bits
RECURSIVE Isq(_, _, _)
Isq(n, a, b) == IF a >= b THEN a ELSE LET m == (a + b + 1) \div 2 IN IF m * m <= n THEN Isq(n, m, b) ELSE Isq(n, a, m - 1)
RECURSIVE SqD(_, _, _)
SqD(r, rem, k) == IF k = 0 THEN r
  ELSE LET R == 100 * rem
           D == {d \in 0..9 : (20 * r + d) * d <= R}
           d == CHOOSE x \in D : \A y \in D : y <= x
       IN SqD(10 * r + d, R - (20 * r + d) * d, k - 1)
Sqrt3(n) == LET r == Isq(n, 0, 46340) IN SqD(r, n - r * r, 3)       \* 1000 sqrt(n)
RECURSIVE LD(_, _, _, _)
LD(q, rem, b, k) == IF k = 0 THEN q ELSE LD(10 * q + (10 * rem) \div b, (10 * rem) % b, b, k - 1)
LongDiv(a, b, k) == LET s == Sgn(a) * Sgn(b)
                        x == Abs_(a)
                        y == Abs_(b)
                    IN s * LD(x \div y, x % y, y, k)                \* 10^k a/b
RECURSIVE Ln5(_)
Ln5(z6) == IF z6 > 1500000 THEN 69315 + Ln5(z6 \div 2)              \* 10^5 ln(z6/10^6), z6 >= 10^6
  ELSE LET w == LongDiv(z6 - 1000000, z6 + 1000000, 5)
           w2 == (w * w) \div 100000
           w3 == (w * w2) \div 100000
           w5 == (w3 * w2) \div 100000
       IN 2 * (w + w3 \div 3 + w5 \div 5)
Asinh5(y3) == LET y == Abs_(y3) IN Sgn(y3) * Ln5(1000 * y + Sqrt3(1000000 + y * y))

\* a plane bilinear quadrilateral in the plane z = 0, corners counterclockwise
Corner == <<1, 3, 9, 7>>
IsPlane(C) == /\ \A n \in 1..9 : C.P[n][3] = 0
              /\ \A c \in 1..2 : /\ 2 * C.P[2][c] = C.P[1][c] + C.P[3][c] /\ 2 * C.P[8][c] = C.P[7][c] + C.P[9][c]
                                 /\ 2 * C.P[4][c] = C.P[1][c] + C.P[7][c] /\ 2 * C.P[6][c] = C.P[3][c] + C.P[9][c]
                                 /\ 4 * C.P[5][c] = C.P[1][c] + C.P[3][c] + C.P[7][c] + C.P[9][c]
\* corner relative to the collocation point, times 16
Rel(C, k) == [c \in 1..2 |-> 16 * C.P[Corner[k]][c]
  - ((4 - C.e[1]) * (4 - C.e[2]) * C.P[1][c] + C.e[1] * (4 - C.e[2]) * C.P[3][c] + (4 - C.e[1]) * C.e[2] * C.P[7][c] + C.e[1] * C.e[2] * C.P[9][c])]
Nxt(k) == (k % 4) + 1
Edg(C, k) == [c \in 1..2 |-> Rel(C, Nxt(k))[c] - Rel(C, k)[c]]
Crs(a, b) == a[1] * b[2] - a[2] * b[1]
D2(a, b) == a[1] * b[1] + a[2] * b[2]
\* edges that do not pass through the collocation point
Sides(C) == {k \in 1..4 : Crs(Rel(C, k), Rel(C, Nxt(k))) # 0}
Through(C) == {k \in 1..4 : Crs(Rel(C, k), Rel(C, Nxt(k))) = 0}
Unit4(e, w) == LongDiv(D2(e, w), Sqrt3(D2(w, w)), 7)                \* 10^4 (e.w)/|w|
\* finite part of the integral of 1/r^3, times -10^9/(16 den)
T9(C) == Sm(Sides(C), LAMBDA k : LET e == Edg(C, k) IN
           LongDiv(Unit4(e, Rel(C, Nxt(k))) - Unit4(e, Rel(C, k)), Crs(Rel(C, k), Rel(C, Nxt(k))), 5))
\* normal component of V for the constant function, 10^-6
PlaneV(C) == -(((((T9(C) \div 1000) * C.den) \div 10) * 1273) \div 100)
\* interior points: components of W for the constant function, 10^-6
L5(C, k) == LET e == Edg(C, k)
                x == Crs(Rel(C, k), Rel(C, Nxt(k)))
            IN Asinh5(LongDiv(D2(e, Rel(C, Nxt(k))), x, 3)) - Asinh5(LongDiv(D2(e, Rel(C, k)), x, 3))
PlaneW(C) == LET S(i) == Sm(1..4, LAMBDA k : LET e == Edg(C, k) IN
                           LongDiv((IF i = 1 THEN e[2] ELSE -e[1]) * L5(C, k), Sqrt3(D2(e, e)), 3))
             IN <<-((RDiv(S(1), 10) * 7958) \div 1000), -((RDiv(S(2), 10) * 7958) \div 1000)>>
Inner(C) == C.e[1] \in 1..3 /\ C.e[2] \in 1..3

\* graph of a quadratic with horizontal tangent plane at the collocation point:
\* den = 16, x = 8 (i-1), y = 8 (j-1), z = a x^2 + 2 m x y + c y^2 (quarters from e)
Parab(e, a, m, c) == FromGrid(LAMBDA i, j : <<8 * (i - 1), 8 * (j - 1),
    LET x == 2 * (i - 1) - e[1]
        y == 2 * (j - 1) - e[2]
    IN a * x * x + 2 * m * x * y + c * y * y>>)
Quadrants(e) == {s \in {-1, 1} \X {-1, 1} : (s[1] = 1 => e[1] < 4) /\ (s[1] = -1 => e[1] > 0) /\ (s[2] = 1 => e[2] < 4) /\ (s[2] = -1 => e[2] > 0)}
\* three times the free-term vector
ParabB3(e, a, m, c) == <<Sm(Quadrants(e), LAMBDA s : 4 * a * s[1] + 4 * m * s[2] + 2 * c * s[1]),
                         Sm(Quadrants(e), LAMBDA s : 2 * a * s[2] + 4 * m * s[1] + 4 * c * s[2]), 0>>
=============================================================================
