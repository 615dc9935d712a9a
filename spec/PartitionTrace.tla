--------------------------- MODULE PartitionTrace --------------------------
(* The distribution recorded on every process of a run. *)
EXTENDS Partition, TraceBase
vars == <<l>>
Scenario == IsOp("scenario")
\* e.r[k]: what process k-1 recorded
Shape(e) == LET A == e.r[1] IN
  [n |-> e.n, nv |-> e.nv, dim |-> e.dim, o2s |-> A.o2s, s2o |-> A.s2o, vo2s |-> A.vo2s, vs2o |-> A.vs2o,
   own |-> [r \in 0..(e.np - 1) |-> ToSet(e.r[r + 1].own)], vown |-> [r \in 0..(e.np - 1) |-> ToSet(e.r[r + 1].vown)],
   ghost |-> [r \in 0..(e.np - 1) |-> ToSet(e.r[r + 1].ghost)],
   x |-> e.x, vx |-> e.vx, comp |-> e.comp,
   cells |-> [k \in DOMAIN e.cells |-> [s |-> A.sub[k], d |-> ToSet(e.cells[k].d), v |-> ToSet(e.cells[k].v)]]]
\* every process has the same maps and the same distribution of elements
Agree(e) == \A k \in DOMAIN e.r : LET A == e.r[k] B == e.r[1] IN A.sub = B.sub /\ A.o2s = B.o2s /\ A.s2o = B.s2o /\ A.vo2s = B.vo2s /\ A.vs2o = B.vs2o /\ A.num = B.num
Part == IsOp("part") /\ Val(Agree(Ev)) /\ \E m \in {Shape(Ev)} : Val(PartitionOK(m, 0..(Ev.np - 1)))
TraceInit == l = 1
TraceNext == Scenario \/ Part
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
