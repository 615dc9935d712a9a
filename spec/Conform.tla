------------------------------ MODULE Conform ------------------------------
(***************************************************************************)
(* Surface meshes with split edges.  A patch is a part of the surface      *)
(* whose elements are connected; along a split edge two patches carry      *)
(* separate, coincident vertices.  The boundary of the patches consists of *)
(* segments; the mesh is conforming when every segment is matched by a     *)
(* coincident segment of another element.                                  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

\* segs: sequence (or function) of records [e |-> {a,b}, c |-> element]
Matched(segs) == \A i \in DOMAIN segs : \E j \in DOMAIN segs : j # i /\ segs[j].e = segs[i].e

\* elements are named by their path <<root, child, child, ...>>
IsPrefixOf(p, q) == Len(p) <= Len(q) /\ \A k \in 1..Len(p) : p[k] = q[k]
Ancestors(q) == {SubSeq(q, 1, k) : k \in 1..Len(q)}

\* `new` arises from `old` by refinement only
Refines(old, new) ==
  /\ \A q \in new : Ancestors(q) \cap old # {}
  /\ \A p \in old : p \in new \/ \E q \in new : IsPrefixOf(p, q)
=============================================================================
