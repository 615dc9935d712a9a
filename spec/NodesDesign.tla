---------------------------- MODULE NodesDesign ----------------------------
(***************************************************************************)
(* The constraint construction as a state machine: nodes are visited in    *)
(* numbering order, each group is handled when its leader is visited, and  *)
(* hanging nodes are merged at the end.  All groups of up to three copies, *)
(* all types, all normal configurations, with a hanging node whose parents *)
(* may themselves be constrained.                                          *)
(***************************************************************************)
EXTENDS Nodes, TLC

CONSTANTS K,          \* number of nodes on edges
          Leader,     \* "dirichlet" (as in the code) or "first" (design mistake)
          Normals,    \* directions, -n is opposite to n
          Opposing,   \* TRUE: opposite normals recognised; FALSE: design mistake
          Sharing,    \* TRUE: equal normals recognised; FALSE: design mistake
          Mixed       \* TRUE: imposed potentials of parents are known values; FALSE: design mistake

Nodes == 1..K
Two == {1, 2}
Three == {-1, 1, 2}
HNode == K + 1       \* a hanging node, parents are two edge nodes or none

VARIABLES loc, dir, nrm, par, i, c, done
vars == <<loc, dir, nrm, par, i, c, done>>

edge == [k \in Nodes |-> 1]
dbl == [k \in Nodes |-> CopiesAt(loc, edge, k)]
groups == {dbl[k] : k \in Nodes}

\* the values are symbols: distinct small even integers
\* imposed at potential nodes: the potential, at flux nodes: the flux
pot == [k \in Nodes |-> IF dir[k] = 1 THEN 200 + 2 * loc[k] ELSE 300 + 4 * loc[k] + 2 * nrm[k]]
same == {p \in Nodes \X Nodes : loc[p[1]] = loc[p[2]] /\ nrm[p[1]] = nrm[p[2]]}
opp == {p \in Nodes \X Nodes : loc[p[1]] = loc[p[2]] /\ nrm[p[1]] + nrm[p[2]] = 0}
\* with a common gradient the value at a node depends on its location and normal only
\* (0 where the two normals do not determine it)
grad == [p \in Nodes \X Nodes |-> IF nrm[p[1]] + nrm[p[2]] = 0 THEN 0
          ELSE IF nrm[p[1]] < 0 THEN -20 * loc[p[1]] + 2 * nrm[p[1]] ELSE 20 * loc[p[1]] + 2 * nrm[p[1]]]

Line(m, h) == [m |-> m, w |-> [x \in m |-> 8], h |-> h]
Minus(m) == [m |-> m, w |-> [x \in m |-> -8], h |-> 0]

Init == /\ loc \in [Nodes -> 1..2] /\ dir \in [1..K + 1 -> 0..1] /\ nrm \in [Nodes -> Normals]
        /\ par \in {{}} \cup {S \in SUBSET Nodes : Cardinality(S) = 2}
        /\ i = 1 /\ c = <<>> /\ done = FALSE

LeaderOf(k) == LET D == {j \in dbl[k] : dir[j] = 1} IN
  IF Leader = "dirichlet" /\ D # {} THEN Min(D) ELSE Min(dbl[k])

\* lines contributed by the leader k for its copy j (later lines overwrite)
Pair(k, j) ==
  IF dir[k] = 1
  THEN IF dir[j] = 1
       THEN IF Sharing /\ nrm[j] = nrm[k] THEN j :> Line({k}, 0)
            ELSE IF Opposing /\ nrm[j] + nrm[k] = 0 THEN j :> Minus({k})
            ELSE (k :> Line({}, grad[<<k, j>>])) @@ (j :> Line({}, grad[<<j, k>>]))
       ELSE j :> Line({}, pot[k])
  ELSE j :> Line({k}, 0)

RECURSIVE Over(_, _, _)
Over(k, S, acc) == IF S = {} THEN acc ELSE LET j == Min(S) IN Over(k, S \ {j}, Pair(k, j) @@ acc)

Visit == /\ i <= K
         /\ c' = IF LeaderOf(i) = i THEN Over(i, dbl[i] \ {i}, c) ELSE c
         /\ i' = i + 1 /\ UNCHANGED <<loc, dir, nrm, par, done>>

\* substitution of constrained masters, as done when the table is closed
Sub(l, d) == LET p == CHOOSE p \in l.m : TRUE IN
  IF l.m = {} \/ NoLine(d, p) THEN l
  ELSE LET sg == l.w[p] \div 8 IN [m |-> d[p].m, w |-> [x \in d[p].m |-> sg * d[p].w[x]], h |-> sg * d[p].h]
Hang == /\ i = K + 1 /\ ~done
        /\ LET d == [k \in DOMAIN c |-> Sub(c[k], c)]
               \* parents where the unknown quantity of the hanging node is imposed
               Q == {p \in par : Mixed /\ dir[HNode] # dir[p]}
               R == par \ Q
               M == UNION {(IF NoLine(d, p) THEN {p} ELSE d[p].m) : p \in R}
               W == [f \in M |-> MapThenSumSet(LAMBDA p : IF NoLine(d, p) THEN (IF p = f THEN 4 ELSE 0) ELSE IF f \in d[p].m THEN d[p].w[f] \div 2 ELSE 0, R)]
               H == MapThenSumSet(LAMBDA p : IF NoLine(d, p) THEN 0 ELSE d[p].h \div 2, R) + MapThenSumSet(LAMBDA p : pot[p] \div 2, Q)
           IN c' = IF par = {} THEN d ELSE (HNode :> [m |-> M, w |-> W, h |-> H]) @@ d
        /\ done' = TRUE /\ UNCHANGED <<loc, dir, nrm, par, i>>

Done == done /\ UNCHANGED vars
Next == Visit \/ Hang \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

hn == IF par = {} THEN <<>> ELSE HNode :> [m |-> par, w |-> [p \in par |-> 4]]

InvEquiv == IsEquivalence(dbl)
InvTable == done => TableOK(c, groups, hn, dir, same, opp, pot, grad, TRUE, 0)
\* independent reading: with all parents of the other type the line only has their values
InvHanging == done /\ par # {} /\ (\A p \in par : dir[p] # dir[HNode]) =>
   c[HNode].m = {} /\ 2 * c[HNode].h = MapThenSumSet(LAMBDA p : pot[p], par)
\* one equation per physical unknown: in a group without sharp potential pair
\* exactly one member is free
InvOneFree == done => \A G \in groups :
  LET D == {k \in G : dir[k] = 1}  free == {k \in G : NoLine(c, k)} IN
  Cardinality(free) = IF \E a, b \in D : nrm[a] # nrm[b] /\ nrm[a] + nrm[b] # 0 THEN 0 ELSE 1
\* every solution of the constrained system gives one potential per location:
\* flux-type members either share the unknown or take the imposed value
InvPotential == done => \A G \in groups : \A a, b \in G :
  (dir[a] = 0 /\ dir[b] = 0) =>
     \/ (~NoLine(c, a) /\ ~NoLine(c, b) /\ c[a] = c[b])
     \/ (NoLine(c, a) /\ (a = b \/ Copies1(c, b, a)))
     \/ (NoLine(c, b) /\ Copies1(c, a, b))
Terminates == <>done
=============================================================================
