------------------------------- MODULE Nodes -------------------------------
(***************************************************************************)
(* Collocation nodes on split edges: coincidence groups, boundary types    *)
(* and the constraint table of the linear system (N01, N02, N04).          *)
(*                                                                         *)
(* A node has a location, an edge flag (it lies on the border of its       *)
(* surface patch) and a type (potential-type "D" or flux-type "N").        *)
(* A constraint line is [m |-> masters, w |-> master -> weight (eighths),  *)
(* h |-> inhomogeneity]; a node without line keeps its own equation.       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, FiniteSetsExt

\* ---- N01: coincidence -----------------------------------------------------
\* nodes at the same place, both on patch borders; every node is its own copy
CopiesAt(loc, edge, i) ==
  {i} \cup (IF edge[i] = 1 THEN {j \in DOMAIN loc : edge[j] = 1 /\ loc[j] = loc[i]} ELSE {})

CoincidenceOK(loc, edge, dbl) == \A i \in DOMAIN loc : dbl[i] = CopiesAt(loc, edge, i)

IsEquivalence(dbl) ==
  /\ \A i \in DOMAIN dbl : i \in dbl[i]
  /\ \A i \in DOMAIN dbl : \A j \in dbl[i] : dbl[j] = dbl[i]

\* ---- N04: classification -------------------------------------------------
\* cells: sequence of [m |-> boundary id, d |-> set of nodes]
IsDirichlet(cells, dids, i) == \E c \in DOMAIN cells : i \in cells[c].d /\ cells[c].m \in dids

\* ---- N02: constraint table -----------------------------------------------
NoLine(c, i) == i \notin DOMAIN c
Copies1(c, i, f) == ~NoLine(c, i) /\ c[i].m = {f} /\ c[i].w[f] = 8 /\ c[i].h = 0
Fixed(c, i) == ~NoLine(c, i) /\ c[i].m = {}

\* S: nodes that must share one unknown (up to the sign sg): one is free and the others copy it
ShareOneUpTo(c, S, sg(_, _)) == \E f \in S : NoLine(c, f) /\ \A i \in S \ {f} :
   ~NoLine(c, i) /\ c[i].m = {f} /\ c[i].w[f] = 8 * sg(i, f) /\ c[i].h = 0
ShareOne(c, S) == ShareOneUpTo(c, S, LAMBDA i, j : 1)

Near(a, b, tol) == a - b <= tol /\ b - a <= tol

\* G group of coincident nodes; dir: node -> 0/1; same, opp: sets of pairs with equal,
\* opposite normals; pot: node -> imposed potential; grad: pair -> normal derivative at
\* the first node consistent with the surface gradients of both
GroupOK(c, G, dir, same, opp, pot, grad, cont, tol) ==
  LET D == {i \in G : dir[i] = 1}
      N == G \ D
      Sharp(i) == {j \in D \ {i} : <<i, j>> \notin same /\ <<i, j>> \notin opp}
      Sign(i, j) == IF <<i, j>> \in opp THEN -1 ELSE 1
      Opposite == \E i, j \in D : <<i, j>> \in opp
  IN
  IF D = {} THEN ShareOne(c, G)
  ELSE
    /\ \A i \in N : Fixed(c, i) /\ \E j \in D : Near(c[i].h, pot[j], tol)
    /\ IF \A i \in D : Sharp(i) = {} THEN (Opposite /\ ~cont) \/ ShareOneUpTo(c, D, Sign)
       ELSE IF cont
            THEN \A i \in D : /\ Fixed(c, i)
                              /\ \/ \E j \in Sharp(i) : Near(c[i].h, grad[<<i, j>>], tol)
                                 \/ \E k \in D \ {i} : /\ <<i, k>> \in same \cup opp
                                                       /\ Fixed(c, k) /\ c[i].h = Sign(i, k) * c[k].h
                                                       /\ \E j \in Sharp(k) : Near(c[k].h, grad[<<k, j>>], tol)
            ELSE TRUE

\* what a hanging line hn (in terms of its parents) becomes once the parents'
\* own lines are substituted; everything scaled by 8.  The unknown of a flux
\* node is its potential, that of a potential node its flux: parents where the
\* same quantity is imposed contribute that value.
Term(c, p, w, known, pot) ==
   IF known THEN [m |-> {}, h |-> w * pot[p], w |-> w]
   ELSE IF NoLine(c, p) THEN [m |-> {p}, h |-> 0, w |-> w]
   ELSE [m |-> c[p].m, h |-> w * c[p].h, w |-> w]   \* group lines have at most one master, of weight 1 or -1

HangingOK(c, i, hn, dir, pot, tol) ==
  LET P == hn.m
      T(p, w) == Term(c, p, w, dir[i] # dir[p], pot)
      M == UNION {T(p, 8).m : p \in P}
      W(f) == MapThenSumSet(LAMBDA p : IF f \notin T(p, 8).m THEN 0 ELSE IF f = p THEN hn.w[p] ELSE hn.w[p] * (c[p].w[f] \div 8), P)
      H == MapThenSumSet(LAMBDA p : T(p, hn.w[p]).h, P)
  IN
  /\ ~NoLine(c, i)
  /\ \A f \in M \cup c[i].m : (IF f \in c[i].m THEN c[i].w[f] ELSE 0) = (IF f \in M THEN W(f) ELSE 0)
  /\ Near(8 * c[i].h, H, 8 * tol)

\* no line refers to a constrained node: lines are resolved, hence acyclic
Acyclic(c) == \A i \in DOMAIN c : \A f \in c[i].m : NoLine(c, f) /\ f # i

TableOK(c, groups, hn, dir, same, opp, pot, grad, cont, tol) ==
  /\ Acyclic(c)
  /\ \A G \in groups : (G \cap DOMAIN hn = {}) => GroupOK(c, G, dir, same, opp, pot, grad, cont, tol)
  /\ \A i \in DOMAIN hn : HangingOK(c, i, hn[i], dir, pot, tol)
  \* nothing else is constrained
  /\ \A i \in DOMAIN c : i \in DOMAIN hn \/ \E G \in groups : i \in G /\ Cardinality(G) > 1
=============================================================================
