----------------------------- MODULE Expansion -----------------------------
(***************************************************************************)
(* Multipole expansions, local expansions and coefficient tables as        *)
(* independent values.  A history is a sequence of operations on named     *)
(* objects; the value of an object is                                      *)
(*   None                        not constructed                           *)
(*   [c, p, w]   multipole: centre, order, bag of sources (source -> Int)  *)
(*   [c, p, w]   local: centre, order, bag of terms (term -> Int) where a  *)
(*               term <<source, cm, cl>> is what a source expanded at the  *)
(*               multipole centre cm contributes at the local centre cl    *)
(* Every translation keeps the bag: the field is the one of the            *)
(* accumulated sources whatever the history.  Objects made by the default  *)
(* constructor have order 0, centre 0 and an empty bag.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == [none |-> TRUE]
IsNone(v) == "none" \in DOMAIN v
EmptyBag == [x \in {} |-> 0]
Wt(b, x) == IF x \in DOMAIN b THEN b[x] ELSE 0
Plus(b, d, q) == [x \in DOMAIN b \cup DOMAIN d |-> Wt(b, x) + q * Wt(d, x)]
One(x, q) == [y \in {x} |-> q]
Lift(b, cm, cl) == [t \in {<<x, cm, cl>> : x \in DOMAIN b} |-> b[t[1]]]

\* operations: records [op, s, t, c, p, x, q] (unused fields are 0)
Writes(o) == o.s
Guard(st, o) ==
  CASE o.op \in {"mnew", "lnew", "mdef", "ldef"} -> TRUE
    [] o.op \in {"src"} -> ~IsNone(st[o.s]) /\ st[o.s].p > 0
    [] o.op \in {"mcopy", "lcopy"} -> ~IsNone(st[o.t]) /\ o.s # o.t
    [] o.op \in {"massign", "lassign"} -> ~IsNone(st[o.s]) /\ ~IsNone(st[o.t])
    [] o.op = "mscale" -> ~IsNone(st[o.s]) /\ ~IsNone(st[o.t]) /\ st[o.s].p = st[o.t].p /\ st[o.s].c = st[o.t].c /\ st[o.s].p > 0
    [] o.op \in {"madd", "ladd", "lm"} -> ~IsNone(st[o.s]) /\ ~IsNone(st[o.t]) /\ st[o.s].p = st[o.t].p /\ st[o.s].p > 0
    [] OTHER -> FALSE
Result(st, o) ==
  CASE o.op \in {"mnew", "lnew"} -> [c |-> o.c, p |-> o.p, w |-> EmptyBag]
    [] o.op \in {"mdef", "ldef"} -> [c |-> 0, p |-> 0, w |-> EmptyBag]
    [] o.op = "src" -> [st[o.s] EXCEPT !.w = Plus(@, One(o.x, 1), o.q)]
    [] o.op \in {"mcopy", "lcopy", "massign", "lassign"} -> st[o.t]
    [] o.op = "mscale" -> [st[o.s] EXCEPT !.w = Plus(@, st[o.t].w, o.q)]
    [] o.op \in {"madd", "ladd"} -> [st[o.s] EXCEPT !.w = Plus(@, st[o.t].w, 1)]
    [] o.op = "lm" -> [st[o.s] EXCEPT !.w = Plus(@, Lift(st[o.t].w, st[o.t].c, st[o.s].c), 1)]
Step(st, o) == [st EXCEPT ![o.s] = Result(st, o)]
=============================================================================
