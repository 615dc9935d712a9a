----------------------------- MODULE Partition -----------------------------
(***************************************************************************)
(* Distribution of elements and unknowns over processes.                   *)
(*   cells    sequence of [s, d, v]: subdomain, nodes, vector unknowns     *)
(*   R        processes 0..np-1                                            *)
(*   own(r)   scalar unknowns, vown(r) vector unknowns of process r        *)
(*   o2s, s2o, vo2s, vs2o   renumberings (functions on 1..n, 1..nv)        *)
(*   x(i), vx(k)  location classes, comp(k) component of a vector unknown  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* the vector unknown of component d (0-based) of node i (subdomain-wise numbering)
VecOf(m, i, d) == m.vo2s[m.s2o[i] + d * m.n]

Disjoint(f, R) == \A r, t \in R : r # t => f[r] \cap f[t] = {}
Cover(f, R, S) == UNION {f[r] : r \in R} = S
Bijection(g, h, n) == /\ DOMAIN g = 1..n /\ DOMAIN h = 1..n
                      /\ \A i \in 1..n : g[i] \in 1..n /\ h[i] \in 1..n /\ h[g[i]] = i /\ g[h[i]] = i
CellsOf(m, i) == {k \in DOMAIN m.cells : i \in m.cells[k].d}
VCellsOf(m, i) == {k \in DOMAIN m.cells : i \in m.cells[k].v}

Elements(m, R) == \A k \in DOMAIN m.cells : m.cells[k].s \in R
Scalars(m, R) == Disjoint(m.own, R) /\ Cover(m.own, R, 1..m.n)
Vectors(m, R) == Disjoint(m.vown, R) /\ Cover(m.vown, R, 1..m.nv)
\* a process owns unknowns of its own elements only
Local(m, R) == \A r \in R : \A i \in m.own[r] : \E k \in CellsOf(m, i) : m.cells[k].s = r
Maps(m) == Bijection(m.o2s, m.s2o, m.n) /\ Bijection(m.vo2s, m.vs2o, m.nv) /\ m.nv = m.dim * m.n
Preserve(m) == \A i \in 1..m.n : \A d \in 0..(m.dim - 1) :
                 LET v == VecOf(m, i, d) IN m.vx[v] = m.x[i] /\ m.comp[v] = d /\ VCellsOf(m, v) = CellsOf(m, i)
Together(m, R) == \A r \in R : \A i \in m.own[r] : \A d \in 0..(m.dim - 1) : VecOf(m, i, d) \in m.vown[r]
\* what a process needs to see: all unknowns of its elements
Ghosts(m, R) == \A r \in R : m.ghost[r] = UNION {m.cells[k].d : k \in {c \in DOMAIN m.cells : m.cells[c].s = r}}

PartitionOK(m, R) == Elements(m, R) /\ Scalars(m, R) /\ Vectors(m, R) /\ Local(m, R) /\ Maps(m) /\ Preserve(m) /\ Together(m, R) /\ Ghosts(m, R)
=============================================================================
