------------------------------ MODULE FmaTree ------------------------------
(***************************************************************************)
(* State of the fast multipole accelerator and the properties F01 (blocks  *)
(* partition nodes and quadrature points), F02 (every node/source pair is  *)
(* counted exactly once) and F03 (expansions are used only between well    *)
(* separated blocks).                                                      *)
(*                                                                         *)
(* A tree T is a record of functions over the set of blocks T.B:           *)
(*   lev par ch   level, parent, set of children                           *)
(*   nd qd        set of collocation nodes / of quadrature points          *)
(*   lo sz        lower corner (integer tuple) and edge length of the box  *)
(*   il nl        sequences of sets of blocks, one per sublevel: blocks    *)
(*                interacting directly / by expansion                      *)
(* The operators are used twice: by the design model (FmaDesign.tla), in   *)
(* which the tree and the lists are built step by step, and by the trace   *)
(* specification (FmaTrace.tla), where they are what the real code built.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

RangeOf(s) == {s[i] : i \in DOMAIN s}

Leaf(T, b) == T.ch[b] = {}

RECURSIVE Chain(_, _)
Chain(T, b) == IF b = T.root THEN {b} ELSE {b} \cup Chain(T, T.par[b])

\* integer weight of the nodes of a block: a node that has k coincident
\* copies counts 1/k (weights are scaled by 2520)
SumW(w, S) == MapThenSumSet(LAMBDA x : w[x], S)

----------------------------------------------------------------------------
(* F01 *)

Dims(T) == DOMAIN T.lo[T.root]

WellFormed(T) ==
  /\ T.lev[T.root] = 0
  /\ \A b \in T.B \ {T.root} :
        /\ T.par[b] \in T.B /\ b \in T.ch[T.par[b]]
        /\ T.lev[b] = T.lev[T.par[b]] + 1
  /\ \A b \in T.B : \A c \in T.ch[b] : c \in T.B /\ T.par[c] = b

\* every child occupies one octant of its parent, no two the same one
Octants(T, eps) ==
  \A b \in T.B \ {T.root} :
    LET p == T.par[b] IN
      /\ T.sz[b] - T.sz[p] \div 2 \in -eps..eps
      /\ \A k \in Dims(T) : \/ T.lo[b][k] - T.lo[p][k] \in -eps..eps
                            \/ T.lo[b][k] - (T.lo[p][k] + T.sz[p] \div 2) \in -eps..eps
      /\ \A c \in T.ch[p] \ {b} : \E k \in Dims(T) : ~(T.lo[b][k] - T.lo[c][k] \in -eps..eps)

InBox(T, b, x, eps) == \A k \in Dims(T) : T.lo[b][k] - eps <= x[k] /\ x[k] <= T.lo[b][k] + T.sz[b] + eps

Contained(T, xn, xq, eps) ==
  \A b \in T.B : /\ \A i \in T.nd[b] : InBox(T, b, xn[i], eps)
                 /\ \A q \in T.qd[b] : InBox(T, b, xq[q], eps)

SumCard(f, S) == MapThenSumSet(LAMBDA x : Cardinality(f[x]), S)

Partition(T, N, Q) ==
  /\ T.nd[T.root] = N
  /\ T.qd[T.root] = Q
  /\ \A b \in T.B : ~Leaf(T, b) =>
        /\ UNION {T.nd[c] : c \in T.ch[b]} = T.nd[b] /\ SumCard(T.nd, T.ch[b]) = Cardinality(T.nd[b])
        /\ UNION {T.qd[c] : c \in T.ch[b]} = T.qd[b] /\ SumCard(T.qd, T.ch[b]) = Cardinality(T.qd[b])
  /\ \A b \in T.B \ {T.root} : T.nd[b] # {} \/ T.qd[b] # {}

\* subdivided exactly when too full and levels are left (the root is always subdivided)
Refinement(T, w, maxn, levels) ==
  \A b \in T.B :
    /\ T.lev[b] <= levels
    /\ IF b = T.root THEN ~Leaf(T, b)
       ELSE LET s == SumW(w, T.nd[b]) IN
            /\ (s <= maxn * 2520) => Leaf(T, b)
            /\ (s > maxn * 2520 + 1260 /\ T.lev[b] < levels) => ~Leaf(T, b)
            /\ (T.lev[b] = levels) => Leaf(T, b)

----------------------------------------------------------------------------
(* How the accelerator uses the lists.  For a leaf b with nodes:           *)
(*  - the blocks of its last direct list are integrated directly,          *)
(*  - every block a of its chain contributes the blocks of all its         *)
(*    expansion lists: coarser ones are integrated directly, those of the  *)
(*    same level are translated to the local expansion of a, finer ones    *)
(*    are evaluated at the nodes.                                          *)
(* Each "use" is a pair <<who, block>> so that a block that is used twice  *)
(* is visible as two uses.                                                 *)

NearUses(T, b) == {<<"direct", b, 0, c>> : c \in T.il[b][Len(T.il[b])]}

FarUses(T, b) ==
  UNION {UNION {{<<IF T.lev[c] < T.lev[a] THEN "coarse" ELSE IF T.lev[c] = T.lev[a] THEN "translate" ELSE "evaluate", a, s, c>>
                 : c \in T.nl[a][s]} : s \in DOMAIN T.nl[a]} : a \in Chain(T, b)}

Uses(T, b) == NearUses(T, b) \cup FarUses(T, b)

\* (who, sublevel, block) triples that go through an expansion
Expanded(T, b) == {u \in FarUses(T, b) : u[1] # "coarse"}

\* exactly once: no block is used twice, none is below another one, and all
\* quadrature points are reached (nq[b] = number of points of block b)
ExactlyOnceAt(T, nq, b) ==
  \E U \in {Uses(T, b)} : \E C \in {{u[4] : u \in U}} :
     /\ Cardinality(C) = Cardinality(U)
     /\ \A c \in C : (Chain(T, c) \cap C) = {c}
     /\ SumW(nq, C) = nq[T.root]

ExactlyOnce(T, nq) == \A b \in T.B : (Leaf(T, b) /\ T.nd[b] # {}) => ExactlyOnceAt(T, nq, b)

----------------------------------------------------------------------------
(* F03 *)

\* closed boxes meet (up to eps)
Touch(T, a, b, eps) ==
  \A k \in Dims(T) : T.lo[a][k] <= T.lo[b][k] + T.sz[b] + eps /\ T.lo[b][k] <= T.lo[a][k] + T.sz[a] + eps

Separated(T, eps) ==
  \A a \in T.B : T.nd[a] # {} =>
     \A s \in DOMAIN T.nl[a] : \A c \in T.nl[a][s] : T.lev[c] >= T.lev[a] => ~Touch(T, a, c, eps)

\* elems[e] = [d |-> nodes of element e, lv |-> leaves holding its quadrature points]
\* copies[i] = nodes coincident with i.  No quadrature point of an element
\* containing a copy of node i is seen by i through an expansion.
SingularDirect(T, elems, copies, leafOf) ==
  \A b \in T.B : (Leaf(T, b) /\ T.nd[b] # {}) =>
    \E F \in {{u[4] : u \in Expanded(T, b)}}, N \in {UNION {copies[i] : i \in T.nd[b]}} :
       \A e \in DOMAIN elems : (elems[e].d \cap N # {}) =>
          \A x \in elems[e].lv : Chain(T, x) \cap F = {}
=============================================================================
