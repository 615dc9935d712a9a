---------------------------- MODULE KernelDesign ---------------------------
(***************************************************************************)
(* The elementary values of plane elements obey the transformation laws    *)
(* and the laws of cutting, whatever sequence of operations is applied.    *)
(* Bug introduces a wrong law, which an invariant must refute.             *)
(***************************************************************************)
EXTENDS Kernel, TLC
CONSTANTS Bug, MaxOps, Few

VARIABLES C, v, w, n
vars == <<C, v, w, n>>

Quad(c1, c3, c7, c9) == FromGrid(LAMBDA i, j : [c \in V3 |->
  ((3 - i) * (3 - j) * c1[c] + (i - 1) * (3 - j) * c3[c] + (3 - i) * (j - 1) * c7[c] + (i - 1) * (j - 1) * c9[c]) \div 4])
P(x, y) == <<x, y, 0>>
Quads == {Quad(P(0, 0), c3, c7, [c \in V3 |-> c3[c] + c7[c] + d[c]]) :
            c3 \in (IF Few THEN {P(8, 4)} ELSE {P(4, 0), P(8, 0), P(8, 4)}), c7 \in (IF Few THEN {P(-4, 4), P(0, 4)} ELSE {P(0, 4), P(4, 8), P(-4, 4)}),
            d \in (IF Few THEN {P(4, 0)} ELSE {P(0, 0), P(4, 0), P(0, 4)})}
Ms == { << <<<<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>, 1>>,
        << <<<<-1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, 1>>,
        << <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, -1>>>>, 1>>,
        << <<<<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 2>>>>, 2>>,
        << <<<<3, -4, 0>>, <<4, 3, 0>>, <<0, 0, 5>>>>, 5>> }

Init == /\ C \in {[P |-> q, e |-> e, den |-> 4] : q \in Quads, e \in (0..4) \X (0..4)}
        /\ v = PlaneV(C)
        /\ w = (IF Inner(C) THEN PlaneW(C) ELSE <<0, 0>>)
        /\ n = 0

SimA == \E m \in Ms :
  LET M == m[1]
      k == m[2] IN
  /\ n < MaxOps /\ n' = n + 1
  /\ k > 1 => \A x \in 1..9 : \A c \in V3 : Abs_(C.P[x][c]) <= 12
  /\ C' = Sim(C, M, IF n = 0 THEN <<1, -2, 0>> ELSE <<0, 0, 0>>)
  /\ LET s == IF Bug = "sign" THEN 1 ELSE Sgn(Det(M)) IN
     v' = RDiv(s * M[3][3] * v, IF Bug = "scale" THEN k ELSE k * k)
  /\ LET x == MV(M, <<w[1], w[2], 0>>) IN w' = <<RDiv(x[1], k), RDiv(x[2], k)>>
DihA == \E d \in {"turn", "swap"} :
  /\ n < MaxOps /\ n' = n + 1
  /\ C' = IF Bug = "eta" /\ d = "turn" THEN [Dih(C, d) EXCEPT !.e = <<4 - C.e[2], C.e[1]>>] ELSE Dih(C, d)
  /\ v' = (IF Bug = "orient" THEN 1 ELSE DihSign(d)) * v
  /\ UNCHANGED w
Next == SimA \/ DihA
Spec == Init /\ [][Next]_vars

Close(a, b, r) == Abs_(a - b) <= 200 + Abs_(b) \div r
FollowV == Close(PlaneV(C), v, 800)
FollowW == Inner(C) => \A i \in 1..2 : Abs_(PlaneW(C)[i] * (IF Bug = "wsign" THEN -1 ELSE 1) - w[i]) <= 900
StillPlane == IsPlane(C)

\* a cut through the collocation point leaves the finite part unchanged
Small(D) == [D EXCEPT !.P = [x \in 1..9 |-> [c \in V3 |-> D.P[x][c] \div 64]], !.den = D.den \div 64]
Parts == IF Bug = "lost" THEN Pieces(C) \ {CHOOSE a \in Pieces(C) : TRUE} ELSE Pieces(C)
Additive == n = 0 => Close(Sm(Parts, LAMBDA a : PlaneV(Small(Sub(C, a)))), v, 500)
PiecesCover == Sm(Pieces(C), LAMBDA a : (a[2] - a[1]) * (a[4] - a[3])) = 16
PieceEta == \A a \in Pieces(C) \cup Cores(C) : Sub(C, a).e \in (0..4) \X (0..4)
CoreEta == n = 0 => \A a \in Cores(C) : \* the collocation point stays where it is
  Pt(Sub(C, a).P, 2 * Sub(C, a).e[1], 2 * Sub(C, a).e[2]) = [c \in V3 |-> 1024 * Pt(C.P, 2 * C.e[1], 2 * C.e[2])[c]]

\* renumberings and shape functions
Group == /\ Dih(Dih(C, "swap"), "swap") = C /\ Dih(Dih(Dih(Dih(C, "turn"), "turn"), "turn"), "turn") = C
         /\ \A m \in Ms : IsSim(m[1], m[2]) /\ Abs_(Det(m[1])) = m[2] * m[2] * m[2]
         /\ \A d \in {"turn", "swap"}, o \in 0..2 : {OldNode(d, o, x) : x \in 1..Pow2(o)} = 1..Pow2(o)
Unity == \A ku, kv \in 0..8 : \A o \in 0..2 : Sm(1..Pow2(o), LAMBDA m : Sh1(o, I1(o, m), ku) * Sh1(o, J1(o, m), kv)) = ShDen(o) * ShDen(o)
Dual == \A o \in 0..2 : \A m, x \in 1..Pow2(o) : o = 0 \/ Sh1(o, I1(o, m), 2 * NodeAt(o, x)[1]) * Sh1(o, J1(o, m), 2 * NodeAt(o, x)[2]) = (IF m = x THEN ShDen(o) * ShDen(o) ELSE 0)

ASSUME Unity /\ Dual

\* the free-term vector of a graph: inner points have none, parts add up,
\* and it changes sign with the graph
BLaws == n = 0 => \A a, c \in {-1, 0, 1} : \A m \in {-1, 0, 1} :
  /\ Inner(C) => ParabB3(C.e, a, m, c) = <<0, 0, 0>>
  /\ \A i \in V3 : ParabB3(C.e, -a, -m, -c)[i] = -ParabB3(C.e, a, m, c)[i]
  /\ C.e[1] = 0 => ParabB3(<<4, C.e[2]>>, a, m, c)[1] = -ParabB3(C.e, a, -m, c)[1]
=============================================================================
