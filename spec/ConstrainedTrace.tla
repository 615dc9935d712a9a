-------------------------- MODULE ConstrainedTrace -------------------------
(***************************************************************************)
(* Recorded applications of the real operator.  "exact": small integer     *)
(* systems, every entry must equal the specification's.  "rows": the       *)
(* system of a real boundary value problem, deviations in 1e-9 of the      *)
(* vector size: du from the unconstrained row, dc from the residual of the *)
(* constraint, dr/dh of the right-hand side.                               *)
(***************************************************************************)
EXTENDS Constrained, TraceBase

TableOf(s) == LET I == {s[k].i : k \in DOMAIN s} IN
  TLCEval([i \in I |-> LET k == CHOOSE k \in DOMAIN s : s[k].i = i
                           m == ToSet(s[k].m) IN
     [m |-> m, w |-> [f \in m |-> s[k].w[CHOOSE q \in DOMAIN s[k].m : s[k].m[q] = f]], h |-> s[k].h]])

ExactOK(e) == \E con \in {TableOf(e.con)} :
  /\ e.y = Apply(e.A, con, e.x)
  /\ e.r = Rhs(con, e.b)
  /\ e.s = e.x                        \* the source is not modified
ExactEv == IsOp("exact") /\ Val(ExactOK(Ev))

RowsOK(e) == \E C \in {ToSet(e.con)} :
  /\ \A i \in DOMAIN e.du : IF i \in C THEN e.dc[i] <= 1 /\ e.dh[i] <= 1
                                       ELSE e.du[i] <= 1 /\ e.dr[i] <= 1
  /\ \A i \in DOMAIN e.lin : e.lin[i] <= e.ltol           \* linear
RowsEv == IsOp("rows") /\ Val(RowsOK(Ev))

\* after a solve: residual of every constraint at the returned unknown
SolvedEv == IsOp("solved") /\ Val(\A i \in DOMAIN Ev.res : Ev.res[i] <= Ev.tol)

Scenario == IsOp("scenario")
TraceInit == l = 1
TraceNext == Scenario \/ ExactEv \/ RowsEv \/ SolvedEv
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
