----------------------------- MODULE FmaDesign -----------------------------
(***************************************************************************)
(* The accelerator as a state machine: subdivide level by level, build the *)
(* proximity and interaction lists, then run the summation passes.  Every  *)
(* placement of NE elements (one node and one quadrature point each, and a *)
(* pairing of coincident nodes) on a small grid is explored exhaustively.  *)
(* The summation passes carry, per block, the BAG of quadrature points     *)
(* already accounted for, so "exactly once" is decided on the bags and not *)
(* through the list criterion of FmaTree; that the two agree is itself an  *)
(* invariant.                                                              *)
(***************************************************************************)
EXTENDS FmaTree

CONSTANTS D,        \* space dimension
          K,        \* grid has 2^K cells per direction
          NE,       \* number of elements
          Levels, MaxN,
          Variant   \* "code", or the name of a seeded design mistake

VARIABLES phase, lvl, pn, pq, dbl, T, M, L, V, E

vars == <<phase, lvl, pn, pq, dbl, T, M, L, V, E>>

El == 1..NE
Pos == [1..D -> 0..(2^K - 1)]
\* positions are cell midpoints 2x+1 on a grid of 2^(K+1) units
X(p) == [k \in 1..D |-> 2 * p[k] + 1]
Root == <<0, [k \in 1..D |-> 0]>>
Size(b) == 2^(K + 1 - b[1])
Lo(b) == [k \in 1..D |-> b[2][k] * Size(b)]
In(b, p) == \A k \in 1..D : Lo(b)[k] <= X(p)[k] /\ X(p)[k] <= Lo(b)[k] + Size(b)
KidsOf(b) == {<<b[1] + 1, [k \in 1..D |-> 2 * b[2][k] + o[k]]>> : o \in [1..D -> 0..1]}
W == [e \in El |-> 2520 \div Cardinality(dbl[e])]

Empty == [B |-> {Root}, root |-> Root, lev |-> (Root :> 0), par |-> (Root :> Root), ch |-> (Root :> {}),
          nd |-> (Root :> El), qd |-> (Root :> El), lo |-> (Root :> Lo(Root)), sz |-> (Root :> Size(Root)),
          il |-> (Root :> << {} >>), nl |-> (Root :> << {} >>), nn |-> (Root :> << {} >>)]

\* coincident copies: elements 2j-1 and 2j may share their node
Init == /\ phase = "subdivide" /\ lvl = 1
        /\ pn \in [El -> Pos] /\ pq \in [El -> Pos]
        /\ dbl = [e \in El |-> {f \in El : pn[e] = pn[f]}]
        /\ T = Empty
        /\ M = <<>> /\ L = <<>> /\ V = <<>> /\ E = <<>>

Weight(b) == SumW(W, T.nd[b])
Parents(l) == {b \in T.B : T.lev[b] = l - 1 /\ (b = Root \/ Weight(b) >= MaxN * 2520 + 1260)}

\* one pass of the level loop
Subdivide ==
  /\ phase = "subdivide" /\ lvl <= Levels
  /\ LET P == Parents(lvl)
         new == {c \in UNION {KidsOf(b) : b \in P} :
                   \E e \in El : In(c, pn[e]) \/ In(c, pq[e])}
         Bn == T.B \cup new
         prt(c) == CHOOSE b \in P : c \in KidsOf(b)
     IN T' = [T EXCEPT !.B = Bn,
                !.lev = [b \in Bn |-> b[1]],
                !.par = [b \in Bn |-> IF b \in new THEN prt(b) ELSE T.par[b]],
                !.ch = [b \in Bn |-> IF b \in P THEN KidsOf(b) \cap new ELSE IF b \in new THEN {} ELSE T.ch[b]],
                !.nd = [b \in Bn |-> {e \in El : In(b, pn[e])}],
                !.qd = [b \in Bn |-> {e \in El : In(b, pq[e])}],
                !.lo = [b \in Bn |-> Lo(b)], !.sz = [b \in Bn |-> Size(b)],
                !.il = [b \in Bn |-> << {} >>], !.nl = [b \in Bn |-> << {} >>], !.nn = [b \in Bn |-> << {} >>]]
  /\ lvl' = lvl + 1
  /\ UNCHANGED <<phase, pn, pq, dbl, M, L, V, E>>

EndSubdivide ==
  /\ phase = "subdivide" /\ lvl > Levels
  /\ phase' = "near" /\ lvl' = 1
  /\ UNCHANGED <<pn, pq, dbl, T, M, L, V, E>>

AtLevel(l) == {b \in T.B : T.lev[b] = l}
\* descend one step: a leaf stands for itself
Down(S) == UNION {IF Leaf(T, b) THEN {b} ELSE T.ch[b] : b \in S}
NearOf(b, S) == {c \in Down(S) : Touch(T, b, c, 0)}
\* sublevels of a block: leaves go on down to the finest level
SubLevels(b) == IF Leaf(T, b) /\ T.lev[b] >= 2 THEN Levels - T.lev[b] + 1 ELSE 1

RECURSIVE NearSeq(_, _, _)
NearSeq(b, s, prev) == IF s = 0 THEN <<>> ELSE LET n == NearOf(b, prev) IN <<n>> \o NearSeq(b, s - 1, n)

BuildNear ==
  /\ phase = "near" /\ lvl <= Levels
  /\ T' = [T EXCEPT !.nn = [b \in T.B |->
        IF T.lev[b] # lvl THEN T.nn[b]
        ELSE IF lvl = 1 THEN << AtLevel(1) >>
        ELSE NearSeq(b, SubLevels(b), T.nn[T.par[b]][1])]]
  /\ lvl' = lvl + 1
  /\ UNCHANGED <<phase, pn, pq, dbl, M, L, V, E>>

EndNear == /\ phase = "near" /\ lvl > Levels /\ phase' = "lists" /\ lvl' = 1
           /\ UNCHANGED <<pn, pq, dbl, T, M, L, V, E>>

\* the block of level <= l holding quadrature point e
BlockAt(e, l) == CHOOSE b \in T.B : e \in T.qd[b] /\ T.lev[b] <= l /\ (Leaf(T, b) \/ T.lev[b] = l)
Sing(b, l) == {BlockAt(e, l) : e \in UNION {dbl[i] : i \in T.nd[b]}}

IntSeq(b) == IF T.lev[b] = 1 THEN << AtLevel(1) >>
             ELSE [s \in DOMAIN T.nn[b] |->
                     T.nn[b][s] \cup (IF Variant = "nosingular" THEN {} ELSE Sing(b, T.lev[b] + s - 1))]

BuildLists ==
  /\ phase = "lists" /\ lvl <= Levels
  /\ LET il == [b \in T.B |-> IF T.lev[b] = lvl THEN IntSeq(b) ELSE T.il[b]]
         pil(b, s) == IF s = 1 THEN il[T.par[b]][1] ELSE il[b][s - 1]
         nl == [b \in T.B |-> IF T.lev[b] # lvl \/ lvl = 1 THEN T.nl[b]
                 ELSE [s \in DOMAIN T.nn[b] |-> Down(pil(b, s)) \ (IF Variant = "nearonly" THEN T.nn[b][s] ELSE il[b][s])]]
     IN T' = [T EXCEPT !.il = il, !.nl = nl]
  /\ lvl' = lvl + 1
  /\ UNCHANGED <<phase, pn, pq, dbl, M, L, V, E>>

EndLists == /\ phase = "lists" /\ lvl > Levels /\ phase' = "up" /\ lvl' = Levels
            /\ M' = [b \in T.B |-> [q \in El |-> 0]] /\ L' = M' /\ V' = [e \in El |-> [q \in El |-> 0]] /\ E' = M'
            /\ UNCHANGED <<pn, pq, dbl, T>>

Plus(f, g) == [q \in El |-> f[q] + g[q]]
Ind(S) == [q \in El |-> IF q \in S THEN 1 ELSE 0]
RECURSIVE SumBags(_, _)
SumBags(f, S) == IF S = {} THEN Ind({}) ELSE LET x == CHOOSE y \in S : TRUE IN Plus(f[x], SumBags(f, S \ {x}))

\* leaf expansions from the sources, then child-to-parent translations
Upward ==
  /\ phase = "up" /\ lvl >= 0
  /\ M' = [b \in T.B |-> IF T.lev[b] # lvl THEN M[b]
             ELSE IF Leaf(T, b) THEN Ind(T.qd[b]) ELSE SumBags(M, T.ch[b])]
  /\ lvl' = lvl - 1
  /\ UNCHANGED <<phase, pn, pq, dbl, T, L, V, E>>

EndUp == /\ phase = "up" /\ lvl < 0 /\ phase' = "down" /\ lvl' = 1
         /\ UNCHANGED <<pn, pq, dbl, T, M, L, V, E>>

Rel(b, s, r) == {c \in T.nl[b][s] : CASE r = "coarse" -> T.lev[c] < T.lev[b]
                                      [] r = "same" -> T.lev[c] = T.lev[b]
                                      [] r = "fine" -> T.lev[c] > T.lev[b]}
RECURSIVE OverSubs(_, _, _, _)
OverSubs(b, s, r, f) == IF s = 0 THEN Ind({}) ELSE Plus(SumBags(f, Rel(b, s, r)), OverSubs(b, s - 1, r, f))
QBag == [b \in T.B |-> Ind(T.qd[b])]

\* parent-to-child, same-level translations; finer blocks evaluated at the
\* nodes; coarser ones integrated directly (both go into E)
Descend ==
  /\ phase = "down" /\ lvl <= Levels
  /\ LET own(b) == T.nd[b] # {} /\ T.lev[b] = lvl
         subs(b) == Len(T.nl[b])
     IN /\ L' = [b \in T.B |-> IF ~own(b) THEN L[b]
                   ELSE Plus(IF Variant = "noL2L" THEN Ind({}) ELSE L[T.par[b]], OverSubs(b, subs(b), "same", M))]
        /\ E' = [b \in T.B |-> IF ~own(b) THEN E[b]
                   ELSE Plus(E[T.par[b]], Plus(OverSubs(b, subs(b), "fine", M), OverSubs(b, subs(b), "coarse", QBag)))]
  /\ lvl' = lvl + 1
  /\ UNCHANGED <<phase, pn, pq, dbl, T, M, V>>

LeafOfNode(e) == CHOOSE b \in T.B : Leaf(T, b) /\ e \in T.nd[b]

Finish ==
  /\ phase = "down" /\ lvl > Levels
  /\ V' = [e \in El |-> LET b == LeafOfNode(e) IN
             Plus(Plus(L[b], E[b]), SumBags(QBag, T.il[b][Len(T.il[b])]))]
  /\ phase' = "done"
  /\ UNCHANGED <<lvl, pn, pq, dbl, T, M, L, E>>

Stop == phase = "done" /\ UNCHANGED vars

Next == Subdivide \/ EndSubdivide \/ BuildNear \/ EndNear \/ BuildLists \/ EndLists \/ Upward \/ EndUp \/ Descend \/ Finish \/ Stop
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
NQ == [b \in T.B |-> Cardinality(T.qd[b])]
Elems == [e \in El |-> [d |-> {e}, lv |-> {b \in T.B : Leaf(T, b) /\ e \in T.qd[b]}]]

InvTree == phase \in {"near"} /\ lvl = 1 =>
   /\ WellFormed(T) /\ Octants(T, 0)
   /\ Contained(T, [e \in El |-> X(pn[e])], [e \in El |-> X(pq[e])], 0)
   /\ Partition(T, El, El)
   /\ Refinement(T, W, MaxN, Levels)

InvSeparated == phase = "done" => Separated(T, 0)
InvSingular == phase = "done" => SingularDirect(T, Elems, dbl, <<>>)
InvExactlyOnce == phase = "done" => \A e, q \in El : V[e][q] = 1
\* the list criterion used on recorded trees is equivalent to the bag criterion
InvCriterion == phase = "done" => (ExactlyOnce(T, NQ) <=> \A e, q \in El : V[e][q] = 1)
=============================================================================
