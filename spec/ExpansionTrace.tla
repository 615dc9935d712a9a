--------------------------- MODULE ExpansionTrace --------------------------
(***************************************************************************)
(* Recorded histories of expansion objects.  Event "table" gives the exact *)
(* field (multiples of 1e-7) of every source expanded at every centre with *)
(* every order, at the observation points:                                 *)
(*   m[p][c][x]  multipole expansion of order p of source x about centre c *)
(*   l[p][cm][cl][x]  the polynomial of degree p it becomes about cl       *)
(* An event "ops" is one history; for every operation it records the       *)
(* fingerprint (interned contents) of every object and the observed field  *)
(* of the target.                                                          *)
(***************************************************************************)
EXTENDS Expansion, TraceBase, FiniteSetsExt

VARIABLES tab, fix
vars == <<l, tab, fix>>

Scenario == IsOp("scenario") /\ tab' = <<>> /\ fix' = 0
Table == IsOp("table") /\ tab' = Ev /\ fix' = Ev.fix

K(n) == ToString(n)
IsM(s) == s \in {"a", "b", "c"}
Unit(s, v, x, k) == IF IsM(s) THEN tab.m[K(v.p)][K(v.c)][x][k] ELSE tab.l[K(v.p)][K(x[2])][K(x[3])][x[1]][k]
Sum(S, F(_)) == MapThenSumSet(F, S)
Expected(s, v, k) == LET F(x) == v.w[x] * Unit(s, v, x, k) IN Sum(DOMAIN v.w, F)
Slack(v) == LET F(x) == Abs(v.w[x]) IN 3 + Sum(DOMAIN v.w, F)
FieldOK(s, v, f) == \A k \in DOMAIN f : Abs(f[k] - Expected(s, v, k)) <= Slack(v)

\* every object but the target keeps its contents bit by bit; copies are equal
Kept(o, before, after) == \A s \in DOMAIN before : s = o.s \/ after[s] = before[s]
Equal(o, after) == o.op \in {"mcopy", "lcopy", "massign", "lassign"} => after[o.s] = after[o.t]
NoOp(o, before, after, st) == o.op \in {"madd", "mscale", "ladd", "src"} /\ o.q = 0 /\ o.op \in {"src", "mscale"} => after[o.s] = before[o.s]

\* fields are observed wherever order and centre are defined
Seen(v) == v.p > 0
RECURSIVE Check(_, _, _)
Check(e, st, i) ==
  IF i > Len(e.h) THEN TRUE
  ELSE LET o == e.h[i]
           a == e.fp[i]       \* fingerprints before
           b == e.fp[i + 1]   \* and after
       IN \E nx \in {Step(st, o)} :
          /\ Guard(st, o)
          /\ Kept(o, a, b) /\ Equal(o, b) /\ NoOp(o, a, b, st)
          /\ Seen(nx[o.s]) => FieldOK(o.s, nx[o.s], e.f[i])
          /\ ~Seen(nx[o.s]) => e.f[i] = <<>>
          /\ Check(e, nx, i + 1)
Start(e) == [s \in DOMAIN e.fp[1] |-> None]
Hist == IsOp("ops") /\ Val(Ev.fix = fix) /\ Val(Check(Ev, Start(Ev), 1)) /\ UNCHANGED <<tab, fix>>

(***************************************************************************)
(* Coefficient tables (LocalExpansionCoeff): objects with one integer per  *)
(* index (n, m, nn, mm).  ops: new s p (all entries set to the index       *)
(* number), set s i v, copy s t, assign s t.                               *)
(***************************************************************************)
CStep(st, o) ==
  CASE o.op = "new" -> [st EXCEPT ![o.s] = [p |-> o.p, e |-> [i \in 1..o.n |-> i]]]
    [] o.op = "set" -> [st EXCEPT ![o.s].e[o.i] = o.v]
    [] o.op \in {"copy", "assign"} -> [st EXCEPT ![o.s] = st[o.t]]
RECURSIVE CCheck(_, _, _)
CCheck(e, st, i) ==
  IF i > Len(e.h) THEN TRUE
  ELSE \E nx \in {CStep(st, e.h[i])} :
         /\ \A s \in DOMAIN nx : IsNone(nx[s]) \/ e.obs[i][s] = nx[s].e
         /\ CCheck(e, nx, i + 1)
Coeff == IsOp("coeff") /\ Val(CCheck(Ev, [s \in {"a", "b", "c"} |-> None], 1)) /\ UNCHANGED <<tab, fix>>

TraceInit == l = 1 /\ tab = <<>> /\ fix = 0
TraceNext == Scenario \/ Table \/ Hist \/ Coeff
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
