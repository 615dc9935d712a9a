---------------------------- MODULE NodesTrace -----------------------------
(***************************************************************************)
(* Trace specification for coincident nodes, node types, the constraint    *)
(* table and the imposed data (N01, N02, N04), as recorded from the code.  *)
(***************************************************************************)
EXTENDS Nodes, TraceBase

CONSTANT Prop

VARIABLE world      \* the numbering seen last: [loc, edge, dbl, dir]

Sets(s) == TLCEval([i \in DOMAIN s |-> ToSet(s[i])])

NodesOK(e) ==
  CASE Prop = "N01" ->
       \E dbl \in {Sets(e.dbl)} :
         /\ Len(e.dbl) = e.n
         /\ CoincidenceOK(e.loc, e.edge, dbl)
         /\ IsEquivalence(dbl)
    [] Prop = "N04" ->
       \E cells \in {[c \in DOMAIN e.cells |-> [m |-> e.cells[c].m, d |-> ToSet(e.cells[c].d)]]}, dids \in {ToSet(e.dids)} :
         /\ \A i \in 1..e.n : /\ e.dir[i] = (IF IsDirichlet(cells, dids, i) THEN 1 ELSE 0)
                              /\ e.neu[i] = 1 - e.dir[i]
         /\ e.have = (IF \E i \in 1..e.n : e.dir[i] = 1 THEN 1 ELSE 0)
    [] OTHER -> TRUE

NodesEv == /\ IsOp("nodes") /\ Val(NodesOK(Ev))
           /\ world' = [n |-> Ev.n, loc |-> Ev.loc, edge |-> Ev.edge, dir |-> Ev.dir]

\* ---- constraint table ----------------------------------------------------
Lines(s) == LET I == {s[k].i : k \in DOMAIN s} IN
  TLCEval([i \in I |-> LET k == CHOOSE k \in DOMAIN s : s[k].i = i
                           m == ToSet(s[k].m) IN
     [m |-> m, w |-> [f \in m |-> s[k].w[CHOOSE q \in DOMAIN s[k].m : s[k].m[q] = f]], h |-> s[k].h]])

TableEvOK(e) ==
  \E c \in {Lines(e.c)}, hn \in {Lines(e.hn)},
     groups \in {{CopiesAt(world.loc, world.edge, i) : i \in 1..world.n}},
     same \in {{<<p[1], p[2]>> : p \in ToSet(e.same)}}, opp \in {{<<p[1], p[2]>> : p \in ToSet(e.opp)}},
     grad \in {LET P == {<<p[1], p[2]>> : p \in ToSet(e.grad)} IN
                TLCEval([q \in P |-> (CHOOSE p \in ToSet(e.grad) : p[1] = q[1] /\ p[2] = q[2])[3]])} :
     /\ Len(e.c) = Cardinality(DOMAIN c)
     /\ TableOK(c, groups, hn, world.dir, same, opp, e.pot, grad, e.cont = 1, e.tol)
     \* where the exact gradient is known (linear data), the prescribed normal
     \* derivatives are those of that gradient
     /\ \A k \in DOMAIN e.exact : ~NoLine(c, e.exact[k][1]) => Near(c[e.exact[k][1]].h, e.exact[k][2], e.xtol)

TableEv == IsOp("table") /\ world # <<>> /\ (Prop = "N02" => Val(TableEvOK(Ev))) /\ UNCHANGED world

\* ---- imposed data --------------------------------------------------------
\* phi, pot, dphi, sol: identities (interned bit patterns) of values;
\* dflux: deviation of the flux from the prescribed one, 1e-9
DataOK(e) == \A i \in 1..world.n :
   IF world.dir[i] = 1
   THEN /\ e.phi[i] = e.pot[i] /\ e.tmp[i] = e.pot[i]    \* imposed potential kept, and used
        /\ e.dphi[i] = e.sol[i]                          \* flux computed
   ELSE /\ Abs(e.dflux[i]) <= 10 /\ Abs(e.dtmp[i]) <= 10 \* imposed flux kept, and used
        /\ e.shift = 0 => e.phi[i] = e.sol[i]            \* potential computed

DataEv == IsOp("data") /\ world # <<>> /\ (Prop = "N04" => Val(DataOK(Ev))) /\ UNCHANGED world

Scenario == IsOp("scenario") /\ world' = <<>>
TraceInit == l = 1 /\ world = <<>>
TraceNext == Scenario \/ NodesEv \/ TableEv \/ DataEv
TraceSpec == TraceInit /\ [][TraceNext]_<<l, world>>
=============================================================================
