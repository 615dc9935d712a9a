---------------------------- MODULE LifecycleGen ---------------------------
(***************************************************************************)
(* Histories of operations on the objects of a simulation, generated by    *)
(* TLC: all short ones, or random long ones (simulation).                  *)
(* An operation is [op, k, v]: set input k to v | mesh operation k | new | *)
(* reinit | solve.                                                         *)
(***************************************************************************)
EXTENDS Lifecycle, TLC, Json, IOUtils, CSV
CONSTANTS GenDepth, Mode, MeshOps
\* number of values of every input, from the configuration of the scenario
Values == JsonDeserialize(IOEnv.VALUES)
VARIABLES in, need, hist
vars == <<in, need, hist>>
O(op, k, v) == [op |-> op, k |-> k, v |-> v]
Solve0 == <<O("reinit", "", 0), O("solve", "", 0)>>
Keys == DOMAIN Values
Init == /\ in = [k \in Keys |-> 1] /\ need = FALSE /\ hist = Solve0
Sets == {o \in {O("set", k, v) : k \in Keys, v \in 1..9} : o.v \in 1..Values[o.k] /\ o.v # in[o.k]}
Meshes == {O("mesh", k, 0) : k \in MeshOps}
Last == hist[Len(hist)].op
Count == Cardinality({i \in DOMAIN hist : hist[i].op = "mesh"})
Changes == Sets \cup (IF Count < 2 THEN {o \in Meshes : o.k = "adapt" => Last = "solve"} ELSE {}) \cup {O("new", "", 0)}
Apply(o) == /\ in' = (IF o.op = "set" THEN [in EXCEPT ![o.k] = o.v] ELSE in)
            /\ need' = (need \/ o.op # "set" \/ o.k \notin Free)
\* a change, followed by what is necessary before solving (or by another change)
Step(o, again) == /\ Apply(o)
                  /\ hist' = hist \o <<o>> \o (IF again THEN <<>> ELSE IF need' THEN Solve0 ELSE <<O("solve", "", 0)>>)
NSolve == Cardinality({i \in DOMAIN hist : hist[i].op = "solve"})
Clear(o, again) == Step(o, again) /\ TRUE
Next == /\ NSolve <= GenDepth
        /\ IF Mode = "short" THEN \E o \in Changes : Step(o, FALSE)
           ELSE \E C \in {Changes} : \E op \in {RandomElement({"set", "set", "mesh", "new", "reinit", "solve"})} :
                \E S \in {{c \in C : c.op = op}} :
                  IF op = "reinit" \/ S = {} THEN /\ hist' = hist \o Solve0 /\ need' = FALSE /\ in' = in
                  ELSE \E o \in {RandomElement(S)} : \E b \in {RandomElement({TRUE, FALSE, FALSE})} : Step(o, b /\ o.op # "mesh")
Spec == Init /\ [][Next]_vars
Done == NSolve = GenDepth + 1 /\ Last = "solve"
Written == Done => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
Stop == NSolve <= GenDepth
=============================================================================
