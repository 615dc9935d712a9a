----------------------------- MODULE KrylovTrace ----------------------------
(***************************************************************************)
(* Recorded histories of solves.  "settings" names the current settings;   *)
(* a "solve" event says how the solve ended and, on success, the largest   *)
(* defect of the constrained equations (in thousandths of the tolerance    *)
(* times the norm of the system) and of the constraints themselves, the    *)
(* unknowns and the distance to an independent solution of the system.     *)
(* "program" is a whole run: a result may only follow a converged solve.   *)
(***************************************************************************)
EXTENDS TraceBase, Krylov
VARIABLES known, s
vars == <<l, known, s>>
Scenario == IsOp("scenario") /\ known' = <<>> /\ s' = <<>>
Settings == IsOp("settings") /\ s' = Ev.s /\ UNCHANGED known
Near(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= 2
Solve == /\ IsOp("solve")
         /\ Val(Allowed(known, s, Ev.max, Ev.enough, Ev, Near))
         /\ Val(Ev.ok => /\ Ev.defect <= Ev.bound
                         /\ Ev.condefect <= Ev.bound
                         /\ Ev.dist <= Ev.distbound)
         /\ known' = Learn(known, s, Ev.max, Ev) /\ UNCHANGED s
Program == /\ IsOp("program")
           /\ Val(~Ev.crash /\ IF Ev.enough THEN Ev.rc = 0 /\ Ev.output ELSE Ev.rc # 0 /\ ~Ev.output)
           /\ UNCHANGED <<known, s>>
TraceInit == l = 1 /\ known = <<>> /\ s = <<>>
TraceNext == Scenario \/ Settings \/ Solve \/ Program
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
