-------------------------- MODULE LifecycleDesign --------------------------
EXTENDS Lifecycle, TLC
CONSTANTS Keep, Depth
VARIABLES in, made, need, res, step
vars == <<in, made, need, res, step>>
\* the number of unknowns: two meshes and two orders may have equally many
Size(i) == IF i.fe = 1 /\ i.mesh \in {1, 2} THEN 1 ELSE IF i.fe = 1 THEN 2 ELSE 3
Vals == [k \in Inputs |-> IF k = "mesh" THEN 1..3 ELSE 1..2]
Empty == [d \in Derived |-> None]
Init == /\ in = [k \in Inputs |-> 1] /\ made = Empty /\ need = TRUE /\ res = None /\ step = 0
Go == step < Depth /\ step' = step + 1
Change == /\ Go /\ \E k \in Inputs : \E v \in Vals[k] :
               /\ v # in[k] /\ in' = [in EXCEPT ![k] = v]
               /\ need' = (need \/ k \notin Free)
          /\ res' = None /\ UNCHANGED made
\* new objects in the same process
New == /\ Go /\ made' = [d \in Derived |-> IF d \in Shared \cap Keep THEN made[d] ELSE None]
       /\ need' = TRUE /\ res' = None /\ UNCHANGED in
Reinit == /\ Go /\ need' = FALSE /\ res' = None /\ UNCHANGED in
          /\ made' = [d \in Derived |-> IF d \in Members /\ (d \notin Keep \/ made[d] = None) THEN Stamp(d, in) ELSE made[d]]
Kept(d) == /\ d \in Keep /\ made[d] # None
           /\ IF d = "ones" THEN Size([in EXCEPT !.mesh = made[d].mesh, !.fe = made[d].fe]) = Size(in) ELSE TRUE
Solve == /\ Go /\ ~need /\ UNCHANGED <<in, need>>
         /\ \E m \in {[d \in Derived |-> IF d \in Lazy /\ ~Kept(d) THEN Stamp(d, in) ELSE made[d]]} : made' = m /\ res' = m
Next == Change \/ New \/ Reinit \/ Solve
Spec == Init /\ [][Next]_vars
\* the result of a solve is that of new objects on the same inputs
NoHistory == res # None => res = Fresh(in)
=============================================================================
