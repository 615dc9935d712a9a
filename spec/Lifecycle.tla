----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* Life of the objects of a simulation: a grid, the problem on it and its  *)
(* boundary data.  The state of the inputs (mesh, element order, quadrature*)
(* mapping, boundary types, method, data) is changed by the user; what is  *)
(* derived from it lives in the objects or in tables shared by all objects *)
(* of the process.  A derived quantity is represented by the inputs it was *)
(* computed from.  A solve must use quantities of the current inputs only. *)
(*   Keep   derived quantities a (wrong) design computes once and keeps:   *)
(*          "mapping"  the mapping made by the first re-initialisation     *)
(*          "sing"     the singular quadratures of the first assembly      *)
(*          "ones"     a work vector laid out anew only if the number of   *)
(*                     unknowns changes                                    *)
(*          "tags"     node types made when the object was configured      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Inputs == {"mesh", "fe", "sing", "map", "ids", "meth", "data"}
\* what a re-initialisation is not needed for
Free == {"data"}
None == [none |-> TRUE]
\* what each derived quantity depends on
Dep == [num |-> {"mesh", "fe"}, mapping |-> {"mesh", "fe", "map"}, tags |-> {"mesh", "fe", "ids"},
        sing |-> {"fe", "sing"}, ones |-> {"mesh", "fe"}, tree |-> {"mesh", "fe", "map", "meth"},
        rhs |-> {"data"}]
Members == {"num", "mapping", "tags", "tree"}     \* made by a re-initialisation
Lazy == {"sing", "ones", "rhs"}                   \* made by a solve
Derived == DOMAIN Dep
Shared == {"sing", "ones"}                        \* survive the objects if kept
Stamp(d, in) == [k \in Dep[d] |-> in[k]]
Fresh(in) == [d \in Derived |-> Stamp(d, in)]
=============================================================================
