--------------------------- MODULE ParallelTrace ---------------------------
(***************************************************************************)
(* Runs of one problem with different numbers of processes, threads and    *)
(* task granularities, in numbering-independent form: the first run fixes  *)
(* the problem, every other one must give the same node groups, types,     *)
(* elements and (up to the stated tolerance) values.                       *)
(* Events b/e: an operation on expansion objects by a thread begins/ends:  *)
(* an object being changed is used by nobody else.                         *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLES ref, held
vars == <<l, ref, held>>
Scenario == IsOp("scenario") /\ ref' = <<>> /\ held' = {}
Close(a, b, tol) == /\ DOMAIN a = DOMAIN b
                    /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= tol
\* values fixed up to one additive constant: compare differences with the first entry
CloseShift(a, b, tol) == /\ DOMAIN a = DOMAIN b
                         /\ \A i \in DOMAIN a : Abs((a[i] - a[1]) - (b[i] - b[1])) <= tol
SameProblem(a, b) == a.n = b.n /\ a.keys = b.keys /\ a.groups = b.groups /\ a.dir = b.dir /\ a.neu = b.neu /\ a.cells = b.cells
SameValues(a, b) == /\ DOMAIN a.vals = DOMAIN b.vals
                    /\ \A k \in DOMAIN a.vals : IF b.vals[k].shift THEN CloseShift(a.vals[k].v, b.vals[k].v, b.vals[k].tol)
                                                 ELSE Close(a.vals[k].v, b.vals[k].v, b.vals[k].tol)
Run == /\ IsOp("run")
       /\ IF ref = <<>> THEN ref' = <<Ev>>
          ELSE Val(SameProblem(ref[1], Ev)) /\ Val(SameValues(ref[1], Ev)) /\ UNCHANGED ref
       /\ UNCHANGED held
\* w: the object is changed, r: it is read; h = <<object, thread, mode>>
Free(o, t, m) == \A h \in held : h[1] = o /\ h[2] # t => m = "r" /\ h[3] = "r"
Begin == /\ IsOp("b") /\ Val(Free(Ev.o, Ev.t, Ev.m))
         /\ held' = held \cup {<<Ev.o, Ev.t, Ev.m>>} /\ UNCHANGED ref
End == /\ IsOp("e") /\ held' = held \ {<<Ev.o, Ev.t, Ev.m>>} /\ UNCHANGED ref
\* a new recording
Watch == /\ IsOp("watch") /\ held' = {} /\ UNCHANGED ref
TraceInit == l = 1 /\ ref = <<>> /\ held = {}
TraceNext == Scenario \/ Run \/ Begin \/ End \/ Watch
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
