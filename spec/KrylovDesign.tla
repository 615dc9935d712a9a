---------------------------- MODULE KrylovDesign ----------------------------
(***************************************************************************)
(* A Krylov solver over the field of three elements, for every regular     *)
(* 2x2 matrix A, every regular preconditioner M and every right-hand side: *)
(* step k looks for x in the Krylov space of M A and M b of dimension k    *)
(* with M (b - A x) = 0; without one it keeps some element of the space.   *)
(* The contract of Krylov.tla and the correctness of the answer follow,    *)
(* and fail for the faulty solvers named by Bug.                           *)
(***************************************************************************)
EXTENDS Krylov
CONSTANTS Bug, Runs, Rhs
F == 0..2
V == F \X F
Mat == V \X V
Dt(a) == (a[1][1] * a[2][2] - a[1][2] * a[2][1]) % 3
Reg == {a \in Mat : Dt(a) # 0}
Ap(a, x) == <<(a[1][1] * x[1] + a[1][2] * x[2]) % 3, (a[2][1] * x[1] + a[2][2] * x[2]) % 3>>
Add(x, y) == <<(x[1] + y[1]) % 3, (x[2] + y[2]) % 3>>
Neg(x) == <<(3 - x[1]) % 3, (3 - x[2]) % 3>>
Scl(c, x) == <<(c * x[1]) % 3, (c * x[2]) % 3>>
Zero == <<0, 0>>
Space(k, a, m, b) == LET v == Ap(m, b)
                         w == Ap(m, Ap(a, v))
                     IN IF k = 0 THEN {Zero} ELSE IF k = 1 THEN {Scl(c, v) : c \in F} ELSE {Add(Scl(c, v), Scl(d, w)) : c, d \in F}

VARIABLES A, b, M, max, k, x, pc, known, runs
vars == <<A, b, M, max, k, x, pc, known, runs>>
\* a change of basis turns every right-hand side into the first unit vector
First == {<<1, 0>>}
Every == V \ {Zero}
Init == /\ A \in Reg /\ b \in Rhs /\ M \in (IF Bug = "singular" THEN Mat ELSE Reg)
        /\ max \in 0..3 /\ k = 0 /\ x = Zero /\ pc = "run" /\ known = <<>> /\ runs = 0
PRes(y) == Ap(M, Add(b, Neg(Ap(IF Bug = "operator" /\ M \in Reg THEN (CHOOSE i \in Reg : \A z \in V : Ap(i, Ap(M, z)) = z) ELSE A, y))))
Good == {y \in Space(k, A, M, b) : PRes(y) = Zero}
Stop == pc = "run" /\ x' \in Good /\ pc' = "done" /\ UNCHANGED <<A, b, M, max, k, known, runs>>
Step == /\ pc = "run" /\ Good = {}
        /\ IF k >= max THEN pc' = (IF Bug = "silent" THEN "done" ELSE "failed") /\ k' = k /\ x' \in Space(k, A, M, b)
           ELSE k' = k + 1 /\ x' \in Space(k + 1, A, M, b) /\ pc' = pc
        /\ UNCHANGED <<A, b, M, max, known, runs>>
Again == /\ pc \in {"done", "failed"} /\ runs < Runs
         /\ known' = Learn(known, M, max, [ok |-> pc = "done", steps |-> k, fp |-> x])
         /\ max' \in 0..3 /\ k' = 0 /\ x' = Zero /\ pc' = "run" /\ runs' = runs + 1
         /\ M' \in {M, << <<2, 0>>, <<0, 1>> >>} /\ UNCHANGED <<A, b>>
Next == Stop \/ Step \/ Again
Spec == Init /\ [][Next]_vars
Right == pc = "done" => Ap(A, x) = b
Eq(a, c) == a = c
Contract == pc \in {"done", "failed"} => Allowed(known, M, max, 2, [ok |-> pc = "done", steps |-> k, fp |-> x], Eq)
=============================================================================
