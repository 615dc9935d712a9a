---------------------------- MODULE Constrained ----------------------------
(***************************************************************************)
(* The constrained operator: rows of constrained nodes are replaced by     *)
(* their constraint (N03).  A is a function of rows, con a function from   *)
(* the constrained nodes to [m |-> masters, w |-> weights, h |-> value].   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, FiniteSetsExt

Row(A, x, i) == MapThenSumSet(LAMBDA j : A[i][j] * x[j], DOMAIN x)
Residual(con, x, i) == x[i] - MapThenSumSet(LAMBDA m : con[i].w[m] * x[m], con[i].m)

Apply(A, con, x) == [i \in DOMAIN x |-> IF i \in DOMAIN con THEN Residual(con, x, i) ELSE Row(A, x, i)]
Rhs(con, b) == [i \in DOMAIN b |-> IF i \in DOMAIN con THEN con[i].h ELSE b[i]]

Satisfies(con, x) == \A i \in DOMAIN con : Residual(con, x, i) = con[i].h
=============================================================================
