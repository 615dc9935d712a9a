-------------------------- MODULE PartitionDesign --------------------------
(***************************************************************************)
(* How the numberings are built: unknowns are numbered (vector ones        *)
(* component by component), every unknown is associated with one of the    *)
(* processes of its elements, both numberings are stably sorted by         *)
(* process, and the maps are the sorting permutations.  All meshes with    *)
(* the given nodes and elements, all assignments to processes.             *)
(*   VecRule  "map"    vector unknowns owned through the map (the code)    *)
(*            "assoc"  owned through their own association, with the other *)
(*                     tie-break                                           *)
(*   MapRule  "fwd" | "inv" (the inverse permutation) | "strided"          *)
(***************************************************************************)
EXTENDS Partition, TLC
CONSTANTS N, Cells, NP, Dim, VecRule, MapRule
VARIABLES phase, inc, sub, m
vars == <<phase, inc, sub, m>>
R == 0..(NP - 1)
Nodes == 1..N
Min(S) == CHOOSE a \in S : \A b \in S : a <= b
Max(S) == CHOOSE a \in S : \A b \in S : a >= b
Init == /\ phase = "mesh" /\ m = <<>>
        /\ inc \in [1..Cells -> {S \in SUBSET Nodes : Cardinality(S) = 2}] /\ UNION {inc[c] : c \in 1..Cells} = Nodes
        /\ sub \in [1..Cells -> R]
SubsOf(i) == {sub[c] : c \in {k \in 1..Cells : i \in inc[k]}}
\* stable sort by key: position of element i
Sorted(S, key) == [i \in S |-> Cardinality({j \in S : key[j] < key[i] \/ (key[j] = key[i] /\ j <= i)})]
Inv(f) == [k \in DOMAIN f |-> CHOOSE i \in DOMAIN f : f[i] = k]
NV == Dim * N
NodeOf(k) == IF MapRule = "strided" THEN ((k - 1) \div Dim) + 1 ELSE ((k - 1) % N) + 1
CompOf(k) == IF MapRule = "strided" THEN (k - 1) % Dim ELSE (k - 1) \div N
Number == /\ phase = "mesh" /\ phase' = "done" /\ UNCHANGED <<inc, sub>>
          /\ LET assoc == [i \in Nodes |-> Max(SubsOf(i))]
                 vassoc == [k \in 1..NV |-> IF VecRule = "assoc" THEN Min(SubsOf(NodeOf(k))) ELSE assoc[NodeOf(k)]]
                 o2s == Sorted(Nodes, assoc)
                 vo2s == Sorted(1..NV, vassoc)
                 s2o == Inv(o2s)
                 vs2o == Inv(vo2s)
                 own == [r \in R |-> {o2s[i] : i \in {j \in Nodes : assoc[j] = r}}]
                 base == [n |-> N, nv |-> NV, dim |-> Dim, o2s |-> o2s, s2o |-> IF MapRule = "inv" THEN o2s ELSE s2o, vo2s |-> vo2s, vs2o |-> vs2o]
             IN m' = base @@ [own |-> own,
                  vown |-> [r \in R |-> IF VecRule = "assoc" THEN {vo2s[k] : k \in {j \in 1..NV : vassoc[j] = r}}
                                        ELSE {VecOf(base, i, d) : i \in own[r], d \in 0..(Dim - 1)}],
                  ghost |-> [r \in R |-> {o2s[i] : i \in UNION {inc[c] : c \in {k \in 1..Cells : sub[k] = r}}}],
                  x |-> s2o, vx |-> [k \in 1..NV |-> NodeOf(vs2o[k])], comp |-> [k \in 1..NV |-> CompOf(vs2o[k])],
                  cells |-> [c \in 1..Cells |-> [s |-> sub[c], d |-> {o2s[i] : i \in inc[c]}, v |-> {vo2s[k] : k \in {j \in 1..NV : NodeOf(j) \in inc[c]}}]]]
Next == Number
Spec == Init /\ [][Next]_vars
OK == phase = "done" => PartitionOK(m, R)
=============================================================================
