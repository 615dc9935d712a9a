------------------------- MODULE ConstrainedDesign -------------------------
(***************************************************************************)
(* The distributed application as a state machine: every process owns a    *)
(* set of rows, imports the source values its constraint rows refer to     *)
(* (Import), waits for the unconstrained product and rewrites its          *)
(* constrained rows.  All constraint sets, ownerships and small vectors.   *)
(***************************************************************************)
EXTENDS Constrained, TLC

CONSTANTS N, Procs, Imports    \* Imports: "masters" (as in the code) or "own" (design mistake)

Idx == 1..N
VARIABLES con, own, x, ghost, y, pc
vars == <<con, own, x, ghost, y, pc>>

A == [i \in Idx |-> [j \in Idx |-> IF i = j THEN 3 ELSE ((i * 5 + j * 3) % 4) - 1]]

Lines == {[m |-> S, w |-> [f \in S |-> wt], h |-> hh] : S \in {T \in SUBSET Idx : Cardinality(T) <= 2}, wt \in {1, -2}, hh \in {0, 3}}
Tables == UNION {{c \in [C -> Lines] : \A i \in C : c[i].m \cap C = {}} : C \in SUBSET Idx}

Init == /\ con \in Tables
        /\ own \in [Idx -> Procs] /\ \A p \in Procs : \E i \in Idx : own[i] = p
        /\ x \in [Idx -> {0, 1, 5}] /\ \A i \in Idx : \E j \in Idx : x[j] # 0
        /\ ghost = [p \in Procs |-> <<>>]
        /\ y = [i \in Idx |-> 0]
        /\ pc = [p \in Procs |-> "import"]

Owned(p) == {i \in Idx : own[i] = p}
Need(p) == Owned(p) \cup (IF Imports = "masters" THEN UNION {con[i].m : i \in Owned(p) \cap DOMAIN con} ELSE {})
Import(p) == /\ pc[p] = "import" /\ pc' = [pc EXCEPT ![p] = "product"]
             /\ ghost' = [ghost EXCEPT ![p] = [i \in Need(p) |-> x[i]]]
             /\ UNCHANGED <<con, own, x, y>>
\* the product is collective
Product == /\ \A p \in Procs : pc[p] = "product"
           /\ pc' = [p \in Procs |-> "rows"]
           /\ y' = [i \in Idx |-> Row(A, x, i)]
           /\ UNCHANGED <<con, own, x, ghost>>
Val(p, i) == IF i \in DOMAIN ghost[p] THEN ghost[p][i] ELSE 0
Rows(p) == /\ pc[p] = "rows" /\ pc' = [pc EXCEPT ![p] = "done"]
           /\ y' = [i \in Idx |-> IF own[i] = p /\ i \in DOMAIN con
                      THEN ghost[p][i] - MapThenSumSet(LAMBDA m : con[i].w[m] * Val(p, m), con[i].m) ELSE y[i]]
           /\ UNCHANGED <<con, own, x, ghost>>
Next == Product \/ \E p \in Procs : Import(p) \/ Rows(p)
Spec == Init /\ [][Next]_vars

AllDone == \A p \in Procs : pc[p] = "done"
InvResult == AllDone => y = Apply(A, con, x)
\* a vector whose constrained rows are met satisfies the constraints
InvConverged == AllDone => ((\A i \in DOMAIN con : y[i] = Rhs(con, x)[i]) <=> Satisfies(con, x))
=============================================================================
