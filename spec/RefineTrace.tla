---------------------------- MODULE RefineTrace ----------------------------
(***************************************************************************)
(* Recorded refinement hierarchies.                                        *)
(*  "input": the mesh as read, with the contents of the file               *)
(*  "shape": the hierarchy after zero global steps (element shapes only)   *)
(*  "global": the hierarchy after k global steps, on a fresh object        *)
(***************************************************************************)
EXTENDS Refine, TraceBase

VARIABLES file, shape, T
vars == <<l, file, shape, T>>

\* the hierarchy of an event
Tree(e) == LET I == DOMAIN e.id IN
  [q \in {e.id[i] : i \in I} |-> LET i == CHOOSE i \in I : e.id[i] = q IN
     [rc |-> e.rc[i], p |-> e.p[i], m |-> e.m[i], ext |-> e.ext[i], bd |-> e.bd[i], n |-> e.nrm[i], r |-> e.rad[i]]]

Scenario == IsOp("scenario") /\ file' = <<>> /\ shape' = {} /\ T' = <<>>

Roots(t) == {q \in Paths(t) : Len(q) = 1}
InputOK(t, e) == /\ Paths(t) = {<<k>> : k \in DOMAIN e.file}
                 /\ \A k \in DOMAIN e.file : t[<<k>>].m = e.file[k].m /\ t[<<k>>].rc = 0
                                             /\ {t[<<k>>].p[i] : i \in DOMAIN t[<<k>>].p} = {e.file[k].p[i] : i \in DOMAIN e.file[k].p}
Input == IsOp("input") /\ T' = TLCEval(Tree(Ev)) /\ Val(InputOK(T', Ev)) /\ file' = Ev.file /\ shape' = {}

Same(t) == {q \in Paths(t) : Len(q) = 1} = Roots(T) /\ \A q \in Roots(T) : t[q].m = T[q].m /\ t[q].p = T[q].p
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + (IF Len(a) > 2 THEN a[3] * b[3] ELSE 0)
Geometry(t, e) ==
  CASE e.geo = "flat" -> (IF e.dim = 3 THEN Placed3(t) ELSE Placed2(t))
    [] e.geo = "round" -> \A q \in Active(t) : \A i \in DOMAIN t[q].r : Abs(t[q].r[i] - e.radius) <= 1
    [] OTHER -> \A q \in Active(t) : \A i \in DOMAIN t[q].r : t[q].r[i] <= e.radius
Oriented(t) == \A q \in Active(t) : Dot(t[q].n, t[<<q[1]>>].n) > 0

Common(t, e) == Hierarchy(t) /\ Ids(t) /\ Same(t) /\ Geometry(t, e) /\ Oriented(t)
Shape == IsOp("shape") /\ \E t \in {Tree(Ev)} :
           /\ Val(Common(t, Ev)) /\ Val(IF Ev.dim = 3 THEN Shaped(t, Ev.lim) ELSE Paths(t) = Roots(T))
           /\ shape' = Active(t) /\ UNCHANGED <<file, T>>
Global == IsOp("global") /\ \E t \in {Tree(Ev)} :
           /\ Val(Common(t, Ev)) /\ Val(Active(t) = Split(shape, Ev.k, IF Ev.dim = 3 THEN 0..3 ELSE 0..1))
           /\ UNCHANGED <<file, shape, T>>

TraceInit == l = 1 /\ file = <<>> /\ shape = {} /\ T = <<>>
TraceNext == Scenario \/ Input \/ Shape \/ Global
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
