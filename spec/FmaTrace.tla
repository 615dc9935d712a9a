----------------------------- MODULE FmaTrace ------------------------------
(***************************************************************************)
(* Trace specification for the octree, its interaction lists and the       *)
(* resulting operator: recorded trees must satisfy F01, F02, F03 and the   *)
(* recorded operator entries must agree with the all-direct ones (F02,F04).*)
(* Prop selects the property the run decides.                              *)
(***************************************************************************)
EXTENDS FmaTree, TraceBase

CONSTANTS Prop, Eps

VARIABLE last     \* last state seen: [order |-> ..., dev |-> ...] of the operator

\* the tree described by a record (ids are 1-based, root = 1)
TreeOf(e) ==
  LET B == 1..Len(e.lev) IN
  [B |-> B, root |-> 1, lev |-> e.lev, par |-> e.par,
   ch |-> TLCEval([b \in B |-> ToSet(e.ch[b])]),
   nd |-> TLCEval([b \in B |-> ToSet(e.nd[b])]),
   qd |-> TLCEval([b \in B |-> ToSet(e.qd[b])]),
   lo |-> e.lo, sz |-> e.sz,
   il |-> TLCEval([b \in B |-> [s \in DOMAIN e.il[b] |-> ToSet(e.il[b][s])]]),
   nl |-> TLCEval([b \in B |-> [s \in DOMAIN e.nl[b] |-> ToSet(e.nl[b][s])]])]

NoDuplicates(e) == \A b \in 1..Len(e.lev) : /\ Len(e.ch[b]) = Cardinality(ToSet(e.ch[b]))
                                           /\ Len(e.nd[b]) = Cardinality(ToSet(e.nd[b]))
                                           /\ Len(e.qd[b]) = Cardinality(ToSet(e.qd[b]))

OctreeOK(e) ==
  \* (bound by a quantifier so that TLC evaluates the tree once)
  \E T \in {TreeOf(e)}, N \in {1..e.n}, Q \in {1..e.nq} : CASE Prop = "F01" ->
          /\ NoDuplicates(e)
          /\ WellFormed(T) /\ Octants(T, Eps)
          /\ Contained(T, e.x, e.q, Eps)
          /\ Partition(T, N, Q)
          /\ Refinement(T, e.w, e.maxn, e.levels)
          \* the work lists of the passes name the leaves and the populated blocks
          /\ ToSet(e.childless) = {b \in T.B : Leaf(T, b)} /\ Len(e.childless) = Cardinality(ToSet(e.childless))
          /\ \A lv \in 1..e.levels : /\ ToSet(e.filled[lv + 1]) = {b \in T.B : T.lev[b] = lv /\ T.nd[b] # {}}
                                     /\ Len(e.filled[lv + 1]) = Cardinality(ToSet(e.filled[lv + 1]))
       [] Prop = "F02" -> ExactlyOnce(T, e.nqb)
       [] Prop = "F03" ->
          /\ Separated(T, Eps)
          /\ SingularDirect(T, [i \in DOMAIN e.elems |-> [d |-> ToSet(e.elems[i].d), lv |-> ToSet(e.elems[i].lv)]],
                            [i \in N |-> ToSet(e.copies[i])], <<>>)
       [] OTHER -> TRUE

OctreeEv == IsOp("octree") /\ Val(OctreeOK(Ev)) /\ UNCHANGED last

\* Truncation bound, in 1e-6 of the local magnitude of an entry, for the
\* separation ratio guaranteed by F03, as a function of the expansion order.
Bound(p) == CASE p <= 3 -> 400000 [] p = 4 -> 120000 [] p = 5 -> 60000 [] p = 6 -> 30000
              [] p = 7 -> 15000 [] p = 8 -> 7500 [] p = 9 -> 4000 [] OTHER -> 2000

\* entries of the fast operator: rows[i] = deviations of the entries of
\* column e.col in units of 1e-6 of the entry magnitude
ColumnsEv ==
  /\ IsOp("column")
  /\ Val(\A i \in DOMAIN Ev.dev : Abs(Ev.dev[i]) <= Bound(Ev.order))
  /\ UNCHANGED last

\* Whole-vector comparisons, deviations in 1e-6 of the largest entry.
\* what = "A" (matrix), "B" (right-hand side), "alpha" (solid angles): the
\* operator itself; "phi", "dphi": the solution, amplified by the inverse.
VBound(p) == CASE p <= 3 -> 60000 [] p = 4 -> 30000 [] p = 5 -> 10000 [] p = 6 -> 3000
               [] p = 7 -> 1500 [] p = 8 -> 600 [] p = 9 -> 300 [] OTHER -> 150
Amplif(w) == CASE w = "dphi" -> 10 [] w = "phi" -> 3 [] OTHER -> 1

VectorEv ==
  /\ IsOp("vector")
  /\ Ev.dev <= VBound(Ev.order) * Amplif(Ev.what)
  \* the error shrinks with the order: by a factor 3 at least for every 3 orders
  /\ (Ev.what \in DOMAIN last /\ Ev.order >= last[Ev.what][1] + 3) =>
        (Ev.dev <= 20 * Amplif(Ev.what) \/ Ev.dev * 3 <= last[Ev.what][2])
  /\ last' = (Ev.what :> <<Ev.order, Ev.dev>>) @@ last

\* the all-direct tree against the dense operator: same near-field integrals up
\* to the singular rule; ord = index of the quadrature refinement (1, 2, ...)
QBound(k) == CASE k = 1 -> 8000 [] k = 2 -> 1500 [] OTHER -> 400
DenseEv ==
  /\ IsOp("dense")
  /\ Ev.dev <= QBound(Ev.k) * Amplif(Ev.what)
  /\ UNCHANGED last

Scenario == IsOp("scenario") /\ last' = <<>>

TraceInit == l = 1 /\ last = <<>>
TraceNext == Scenario \/ OctreeEv \/ ColumnsEv \/ VectorEv \/ DenseEv
TraceSpec == TraceInit /\ [][TraceNext]_<<l, last>>
=============================================================================
