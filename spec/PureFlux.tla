----------------------------- MODULE PureFlux ------------------------------
(***************************************************************************)
(* Problems without imposed potential: the operator A maps constants to    *)
(* zero, the solved system adds the mean value to every row, and each      *)
(* process finally shifts its own part of the solution so that the first   *)
(* node gets the prescribed potential.  Integers; all right-hand sides     *)
(* A x0 of potentials x0, all distributions of the nodes.                  *)
(*   Shift   "bcast" (one shift, from the first node)                      *)
(*           "own" (every process from its own first node)                 *)
(*   Term    "mean" | "none" (system left singular)                        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, FiniteSetsExt, TLC
CONSTANTS N, Procs, Shift, Term, K
VARIABLES x0, xh, own, phi, flux, pc
vars == <<x0, xh, own, phi, flux, pc>>
Idx == 1..N
Val == -K..K
\* rows sum to zero, kernel = constants
A == [i \in Idx |-> [j \in Idx |-> IF i = j THEN N - 1 ELSE -1]]
Mul(x) == [i \in Idx |-> MapThenSumSet(LAMBDA j : A[i][j] * x[j], Idx)]
Sum(x) == MapThenSumSet(LAMBDA j : x[j], Idx)
System(x) == [i \in Idx |-> Mul(x)[i] + (IF Term = "mean" THEN Sum(x) ELSE 0)]
Pot(i) == x0[i] + 7        \* the prescribed potential: another constant than the solved one
Init == /\ x0 \in [Idx -> Val] /\ Sum(x0) = 0
        \* the discrete solution differs from the true one by a discretisation error
        /\ xh \in {x0} \cup {[x0 EXCEPT ![i] = x0[i] + N] : i \in Idx}
        /\ own \in [Idx -> Procs]
        /\ \A p \in Procs : \E i \in Idx : own[i] = p
        /\ phi = [i \in Idx |-> 0] /\ flux = [i \in Idx |-> Mul(xh)[i]] /\ pc = "solve"
\* any solution of the system within the box
Solve == /\ pc = "solve" /\ pc' = "shift"
         /\ \E x \in [Idx -> -(K + 2)..(K + 2)] : System(x) = flux /\ phi' = x
         /\ UNCHANGED <<x0, xh, own, flux>>
Delta(p, ph) == LET i == IF Shift = "bcast" THEN 1 ELSE CHOOSE k \in Idx : own[k] = p /\ \A j \in Idx : own[j] = p => k <= j
             IN Pot(i) - ph[i]
ShiftAll == /\ pc = "shift" /\ pc' = "done"
            /\ phi' = [i \in Idx |-> phi[i] + Delta(own[i], phi)]
            /\ UNCHANGED <<x0, xh, own, flux>>
Next == Solve \/ ShiftAll
Spec == Init /\ [][Next]_vars
Reference == pc = "done" => phi[1] = Pot(1)
Differences == pc = "done" => \A i, j \in Idx : phi[i] - phi[j] = xh[i] - xh[j]
FluxKept == flux = Mul(xh)
\* the solved system has exactly one solution
Unique == pc = "solve" => Cardinality({x \in [Idx -> -(K + 2)..(K + 2)] : System(x) = flux}) = 1
=============================================================================
