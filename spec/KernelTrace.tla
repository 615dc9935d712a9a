----------------------------- MODULE KernelTrace ----------------------------
(***************************************************************************)
(* Recorded values of the singular integrals along a history of one        *)
(* element.  val.V[o+1][n], val.W[o+1][n] (node n of order o) and val.b    *)
(* are vectors in multiples of 10^-6.                                      *)
(***************************************************************************)
EXTENDS Kernel, TraceBase
VARIABLES C, v
vars == <<l, C, v>>

Size(X) == Max({Abs(X[n][c]) : n \in DOMAIN X, c \in V3})
\* accuracy of the quadrature (fixed numbers of points): three decimal digits
QTol(x) == 600 + Abs(x) \div 250
Exact(a, b, k) == Abs(a - b) <= 4 * k * k + 8 * k + Abs(b) \div 1000000

\* laws inside one evaluation
Orders(X) == \A q \in {<<1, 0>>, <<2, 0>>, <<2, 1>>} : \A m \in 1..Pow2(q[2]) : \A c \in V3 :
               Abs(FromOrder(X[q[1] + 1], q[1], q[2], m, c) - X[q[2] + 1][m][c]) <= 20
Shape(x) == /\ \A o \in 0..2 : Len(x.V[o + 1]) = Pow2(o) /\ Len(x.W[o + 1]) = Pow2(o)
            /\ x.same = TRUE
Fine(D, x) == /\ Shape(x) /\ Orders(x.V) /\ Orders(x.W)
              /\ Inner(D) => \A c \in V3 : Abs(x.b[c]) <= 20

Scenario == IsOp("scenario") /\ C' = <<>> /\ v' = <<>>
\* a plane element: V is normal, W tangential, no free-term vector, known sums
PlaneOK(D, x) ==
  /\ IsPlane(D)
  /\ \A o \in 0..2 : \A m \in 1..Pow2(o) : x.V[o + 1][m][1] = 0 /\ x.V[o + 1][m][2] = 0 /\ x.W[o + 1][m][3] = 0
  /\ x.b = <<0, 0, 0>>
  /\ Abs(x.V[1][1][3] - PlaneV(D)) <= QTol(PlaneV(D))
  /\ Inner(D) => \A c \in 1..2 : Abs(x.W[1][1][c] - PlaneW(D)[c]) <= 1000
GraphOK(D, k, x) == /\ D.P = Parab(D.e, k[1], k[2], k[3])
                    /\ \A c \in V3 : Abs(3 * x.b[c] - 1000000 * ParabB3(D.e, k[1], k[2], k[3])[c]) <= 30
New == /\ IsOp("new") /\ v = <<>> /\ C' = Ev.C /\ v' = Ev.val
       /\ Val(Fine(Ev.C, Ev.val))
       /\ Val(Ev.fam = "plane" => PlaneOK(Ev.C, Ev.val))
       /\ Val(Ev.fam = "graph" => GraphOK(Ev.C, Ev.k, Ev.val))

\* At a point inside the element finite parts are homogeneous.  At a point on
\* its boundary the excluded neighbourhood is not symmetric, and the finite
\* part changes by a multiple of ln k: the second difference vanishes.
SimOK(D, M, k, x, y, z) ==
  LET s == Sgn(Det(M)) IN
  /\ \A o \in 0..2 : \A m \in 1..Pow2(o) :
       IF k = 1 \/ Inner(D)
       THEN \A c \in V3 : /\ Exact(k * k * y.V[o + 1][m][c], s * MV(M, x.V[o + 1][m])[c], k)
                          /\ Exact(k * y.W[o + 1][m][c], MV(M, x.W[o + 1][m])[c], k)
       ELSE \A c \in V3 : /\ Exact(k * k * k * k * z.V[o + 1][m][c] + MV(M, MV(M, x.V[o + 1][m]))[c], 2 * s * k * k * MV(M, y.V[o + 1][m])[c], 3 * k * k)
                          /\ Exact(k * k * z.W[o + 1][m][c] + MV(M, MV(M, x.W[o + 1][m]))[c], 2 * k * MV(M, y.W[o + 1][m])[c], 2 * k)
  /\ \A c \in V3 : Exact(k * k * y.b[c], s * MV(M, x.b)[c], k)
SimE == /\ IsOp("sim") /\ v # <<>>
        /\ Val(IsSim(Ev.M, Ev.k) /\ Ev.C = Sim(C, Ev.M, Ev.t) /\ Ev.C2 = Sim(Ev.C, Ev.M, <<0, 0, 0>>))
        /\ Val(Fine(Ev.C, Ev.val)) /\ Val(SimOK(C, Ev.M, Ev.k, v, Ev.val, Ev.val2))
        /\ C' = Ev.C /\ v' = Ev.val

DihOK(d, x, y) ==
  /\ \A o \in 0..2 : \A m \in 1..Pow2(o) : \A c \in V3 :
       /\ Exact(y.V[o + 1][m][c], DihSign(d) * x.V[o + 1][OldNode(d, o, m)][c], 1)
       /\ Exact(y.W[o + 1][m][c], x.W[o + 1][OldNode(d, o, m)][c], 1)
  /\ \A c \in V3 : Exact(y.b[c], DihSign(d) * x.b[c], 1)
DihE == /\ IsOp("dih") /\ v # <<>> /\ Val(Ev.C = Dih(C, Ev.d))
        /\ Val(Fine(Ev.C, Ev.val)) /\ Val(DihOK(Ev.d, v, Ev.val))
        /\ C' = Ev.C /\ v' = Ev.val

\* the parts meeting at the collocation point add up to the whole
SplitOK(ps, x) ==
  /\ \A o \in 0..2 : \A m \in 1..Pow2(o) : \A c \in V3 :
       /\ Abs(Sm(DOMAIN ps, LAMBDA i : FromPart(ps[i].val.V[o + 1], ps[i].a, o, m, c)) - x.V[o + 1][m][c]) <= QTol(Size(x.V[o + 1]))
       /\ Abs(Sm(DOMAIN ps, LAMBDA i : FromPart(ps[i].val.W[o + 1], ps[i].a, o, m, c)) - x.W[o + 1][m][c]) <= QTol(Size(x.W[o + 1]))
  /\ \A c \in V3 : Abs(Sm(DOMAIN ps, LAMBDA i : ps[i].val.b[c]) - x.b[c]) <= QTol(x.b[c])
SplitE == /\ IsOp("split") /\ v # <<>>
          /\ Val({Ev.parts[i].a : i \in DOMAIN Ev.parts} = Pieces(C) /\ Len(Ev.parts) = Cardinality(Pieces(C)))
          /\ Val(\A i \in DOMAIN Ev.parts : Ev.parts[i].C = Sub(C, Ev.parts[i].a) /\ Fine(Ev.parts[i].C, Ev.parts[i].val))
          /\ Val(SplitOK(Ev.parts, v)) /\ UNCHANGED <<C, v>>

\* cutting off a part away from the collocation point removes a regular integral
ShrinkOK(e, x) ==
  /\ \A o \in 0..2 : \A m \in 1..Pow2(o) : \A c \in V3 :
       /\ Abs(FromPart(e.val.V[o + 1], e.a, o, m, c) + e.rV[o + 1][m][c] - x.V[o + 1][m][c]) <= QTol(Size(e.val.V[o + 1]))
       /\ Abs(FromPart(e.val.W[o + 1], e.a, o, m, c) + e.rW[o + 1][m][c] - x.W[o + 1][m][c]) <= QTol(Size(e.val.W[o + 1]))
  /\ \A c \in V3 : Abs(e.val.b[c] - x.b[c]) <= 20 + Abs(x.b[c]) \div 100000
ShrinkE == /\ IsOp("shrink") /\ v # <<>> /\ Val(Ev.a \in Cores(C) /\ Ev.C = Sub(C, Ev.a))
           /\ Val(Fine(Ev.C, Ev.val)) /\ Val(ShrinkOK(Ev, v)) /\ UNCHANGED <<C, v>>

Init == l = 1 /\ C = <<>> /\ v = <<>>
Next == Scenario \/ New \/ SimE \/ DihE \/ SplitE \/ ShrinkE
TraceSpec == Init /\ [][Next]_vars
=============================================================================
