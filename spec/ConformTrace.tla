---------------------------- MODULE ConformTrace ---------------------------
(***************************************************************************)
(* Recorded refinement histories.                                          *)
(*  "input"  the mesh as read: material per root, cells                    *)
(*  "user"   the mesh after refinement or coarsening by the caller         *)
(*  "update" the mesh after the update operation                           *)
(* Each carries ids (paths <<root, child, ...>> of the active elements),   *)
(* mat (their boundary ids) and segs, the sides of the elements that lie   *)
(* on the border of a patch: <<a, b, k>> with location classes a, b and    *)
(* the position k of the element; verts: [v, w] location class of every    *)
(* border vertex (3D: both ends; 2D: the single vertex a = b).             *)
(***************************************************************************)
EXTENDS Conform, TraceBase

VARIABLES mats, ids, conf, closed
vars == <<l, mats, ids, conf, closed>>

SegRecs(e) == [i \in DOMAIN e.segs |-> [e |-> {e.segs[i][1], e.segs[i][2]}, c |-> e.segs[i][3]]]
\* same number of occurrences is not required: three patches may meet in an edge
MatchedE(e) == \E s \in {SegRecs(e)} : Matched(s)
IdsOf(e) == {e.ids[i] : i \in DOMAIN e.ids}
MatOK(e, m) == \A i \in DOMAIN e.ids : e.mat[i] = m[e.ids[i][1]]
Distinct(e) == Cardinality(IdsOf(e)) = Len(e.ids) /\ \A q \in IdsOf(e) : Ancestors(q) \cap IdsOf(e) = {q}
RootMats(e) == [r \in {e.ids[i][1] : i \in DOMAIN e.ids} |-> e.mat[CHOOSE i \in DOMAIN e.ids : e.ids[i] = <<r>>]]

Scenario == IsOp("scenario") /\ mats' = <<>> /\ ids' = {} /\ conf' = FALSE /\ closed' = FALSE

Input == IsOp("input") /\ Val(\A i \in DOMAIN Ev.ids : Len(Ev.ids[i]) = 1)
         /\ mats' = RootMats(Ev) /\ ids' = IdsOf(Ev) /\ conf' = MatchedE(Ev) /\ closed' = Ev.closed

\* any mesh on the same roots
User == IsOp("user") /\ Val(Distinct(Ev) /\ MatOK(Ev, mats))
        /\ ids' = IdsOf(Ev) /\ conf' = MatchedE(Ev) /\ UNCHANGED <<mats, closed>>

Update == IsOp("update")
          /\ Val(Distinct(Ev) /\ MatOK(Ev, mats) /\ Refines(ids, IdsOf(Ev)))
          /\ Val(closed => MatchedE(Ev))
          /\ Val(conf => IdsOf(Ev) = ids)
          /\ ids' = IdsOf(Ev) /\ conf' = MatchedE(Ev) /\ UNCHANGED <<mats, closed>>

TraceInit == l = 1 /\ mats = <<>> /\ ids = {} /\ conf = FALSE /\ closed = FALSE
TraceNext == Scenario \/ Input \/ User \/ Update
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
