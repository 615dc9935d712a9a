--------------------------- MODULE LifecycleTrace --------------------------
(***************************************************************************)
(* Recorded histories.  "set"/"mesh"/"new"/"reinit" move the inputs as in  *)
(* Lifecycle; a "fresh" event is the result of new objects in a new process*)
(* for the inputs it names; every "solve" of the history must have the     *)
(* result of a fresh run for the current inputs.                           *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLES mesh, in, need, ref
vars == <<l, mesh, in, need, ref>>
Free == {"data"}
Scenario == IsOp("scenario") /\ mesh' = "0" /\ in' = [k \in {} |-> 0] /\ need' = TRUE /\ ref' = {}
Start == IsOp("start") /\ in' = Ev.in /\ mesh' = Ev.mesh /\ need' = TRUE /\ UNCHANGED ref
Fresh == IsOp("fresh") /\ ref' = ref \cup {l} /\ UNCHANGED <<mesh, in, need>>
Set == IsOp("set") /\ in' = [in EXCEPT ![Ev.k] = Ev.v] /\ need' = (need \/ Ev.k \notin Free) /\ UNCHANGED <<mesh, ref>>
\* a mesh operation: the event names the mesh reached (its active cells)
Mesh == IsOp("mesh") /\ mesh' = Ev.mesh /\ need' = TRUE /\ UNCHANGED <<in, ref>>
New == IsOp("new") /\ mesh' = Ev.mesh /\ need' = TRUE /\ UNCHANGED <<in, ref>>
Reinit == IsOp("reinit") /\ need' = FALSE /\ UNCHANGED <<mesh, in, ref>>
Near(a, b, t) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= t
Same(a, b) == /\ a.n = b.n /\ a.type = b.type /\ a.dbl = b.dbl
              /\ Near(a.x, b.x, 2) /\ Near(a.alpha, b.alpha, a.tol)
              /\ Near(a.phi, b.phi, a.tol) /\ Near(a.dphi, b.dphi, a.tol) /\ Near(a.grad, b.grad, 50 * a.tol)
              /\ Near(a.hgrad, b.hgrad, 50 * a.tol) /\ a.area = b.area
Match == {k \in ref : Log[k].mesh = mesh /\ Log[k].in = in}
Solve == /\ IsOp("solve") /\ ~need
         /\ Val(Match # {} /\ \A k \in Match : Same(Ev, Log[k]))
         /\ UNCHANGED <<mesh, in, need, ref>>
TraceInit == l = 1 /\ mesh = "0" /\ in = [k \in {} |-> 0] /\ need = TRUE /\ ref = {}
TraceNext == Scenario \/ Start \/ Fresh \/ Set \/ Mesh \/ New \/ Reinit \/ Solve
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
