------------------------------- MODULE Krylov -------------------------------
(***************************************************************************)
(* The contract of the linear solver, as a machine over histories of       *)
(* solves with changing preconditioners, tolerances and iteration limits.  *)
(* known[s] is what is known about the settings s (everything but the      *)
(* limit): the largest limit that was not enough, the smallest that was,   *)
(* and the number of steps and the result then.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Big == 1000000
None == [lo |-> -1, hi |-> Big, steps |-> 0, fp |-> <<>>]
At(known, s) == IF s \in DOMAIN known THEN known[s] ELSE None
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* may a solve with settings s and limit max end like this?  enough: a limit
\* with which the solver must not fail
Allowed(known, s, max, enough, o, Same(_, _)) ==
  LET k == At(known, s) IN
  IF o.ok
  THEN /\ o.steps <= max
       /\ max > k.lo                                                  \* success is monotone in the limit
       /\ k.hi < Big => o.steps = k.steps /\ Same(o.fp, k.fp)          \* the limit does not influence the answer
  ELSE /\ max < enough
       /\ o.steps >= max                                               \* only the limit may stop it
       /\ max < k.hi
Learn(known, s, max, o) ==
  LET k == At(known, s) IN
  IF o.ok THEN (s :> [lo |-> k.lo, hi |-> Min2(k.hi, max), steps |-> o.steps, fp |-> o.fp]) @@ known
  ELSE (s :> [k EXCEPT !.lo = Max2(@, max)]) @@ known
=============================================================================
