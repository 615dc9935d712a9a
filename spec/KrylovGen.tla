------------------------------ MODULE KrylovGen -----------------------------
(***************************************************************************)
(* Histories of settings and solves of one problem, generated by TLC.  An  *)
(* operation is [op, v]; every history ends with a solve.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Solves, Bands, Tols, Limits, Methods
VARIABLES st, h, n
vars == <<st, h, n>>
O(op, v) == [op |-> op, v |-> v]
Init == st = [band |-> 0, tol |-> 0, method |-> 0] /\ h = <<>> /\ n = 0
Pick(S) == RandomElement(S)
Setting == /\ (IF h = <<>> THEN TRUE ELSE h[Len(h)].op = "solve")
           /\ \E k \in {IF h = <<>> THEN "all" ELSE Pick({"band", "tol", "method", "none", "none"})} :
              \E b \in {Pick(1..Bands)} : \E t \in {Pick(1..Tols)} : \E m \in {Pick(1..Methods)} :
                st' = [band |-> IF k \in {"all", "band"} THEN b ELSE st.band, tol |-> IF k \in {"all", "tol"} THEN t ELSE st.tol,
                       method |-> IF k \in {"all", "method"} THEN m ELSE st.method]
           /\ h' = Append(h, [op |-> "set", st |-> st']) /\ n' = n
Solve == /\ IF h = <<>> THEN FALSE ELSE h[Len(h)].op = "set" /\ n < Solves
         /\ \E m \in {Pick(1..Limits)} : h' = Append(h, [op |-> "solve", max |-> m])
         /\ n' = n + 1 /\ UNCHANGED st
Next == n < Solves /\ (Setting \/ Solve)
Spec == Init /\ [][Next]_vars
Written == n = Solves => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
