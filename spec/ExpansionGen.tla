---------------------------- MODULE ExpansionGen ---------------------------
(***************************************************************************)
(* Histories of operations on expansion objects, generated by TLC: every   *)
(* short one (GenDepth operations after a common prefix), or long random   *)
(* ones in simulation mode.  A history is written when it is complete.     *)
(***************************************************************************)
EXTENDS Expansion, TLC, Json, IOUtils, CSV
CONSTANTS MSlots, LSlots, MCen, LCen, Src, Ord, GenDepth, Mode
VARIABLES val, hist
vars == <<val, hist>>

O(op, s, t, c, p, x, q) == [op |-> op, s |-> s, t |-> t, c |-> c, p |-> p, x |-> x, q |-> q]
All == {O("mnew", s, s, c, p, 0, 0) : s \in MSlots, c \in MCen, p \in Ord}
  \cup {O("lnew", s, s, c, p, 0, 0) : s \in LSlots, c \in LCen, p \in Ord}
  \cup {O("mdef", s, s, 0, 0, 0, 0) : s \in MSlots} \cup {O("ldef", s, s, 0, 0, 0, 0) : s \in LSlots}
  \cup {O("src", s, s, 0, 0, x, q) : s \in MSlots, x \in Src, q \in {-2, 0, 1, 3}}
  \cup {O(op, s, t, 0, 0, 0, 0) : op \in {"mcopy", "massign", "madd"}, s, t \in MSlots}
  \cup {O(op, s, t, 0, 0, 0, 0) : op \in {"lcopy", "lassign", "ladd"}, s, t \in LSlots}
  \cup {O("mscale", s, t, 0, 0, 0, q) : s, t \in MSlots, q \in {-1, 0, 2}}
  \cup {O("lm", s, t, 0, 0, 0, 0) : s \in LSlots, t \in MSlots}
\* the short histories start from objects that hold something
MC1 == CHOOSE c \in MCen : \A d \in MCen : c <= d
P1 == CHOOSE c \in Ord : \A d \in Ord : c >= d
Prefix == IF Mode = "short"
  THEN <<O("mnew", "a", "a", MC1, P1, 0, 0), O("src", "a", "a", 0, 0, 1, 1), O("mnew", "b", "b", MC1 + 1, P1, 0, 0),
         O("lnew", "x", "x", MC1, P1, 0, 0), O("lm", "x", "a", 0, 0, 0, 0), O("lnew", "y", "y", MC1 + 1, P1, 0, 0)>>
  ELSE <<>>
Small == {o \in All : /\ o.op \notin {"mnew", "lnew"} \/ (o.p = P1 /\ o.c = MC1)
                      /\ o.op # "src" \/ (o.x \in {1, 6} /\ o.q = 3)
                      /\ o.op # "mscale" \/ o.q = 2}
Ops == IF Mode = "short" THEN Small ELSE All

RECURSIVE Run(_, _)
Run(st, h) == IF h = <<>> THEN st ELSE Run(Step(st, Head(h)), Tail(h))
Init == /\ hist = Prefix /\ val = Run([s \in MSlots \cup LSlots |-> None], Prefix)
Fine(v) == \A s \in DOMAIN v : IF IsNone(v[s]) THEN TRUE ELSE \A x \in DOMAIN v[s].w : v[s].w[x] \in -30..30
OK(o) == Guard(val, o) /\ Fine(Step(val, o))
Do(o) == OK(o) = TRUE /\ val' = Step(val, o) /\ hist' = Append(hist, o)
\* in simulation TLC picks the kind of operation first
Next == /\ Len(hist) < Len(Prefix) + GenDepth
        /\ IF Mode = "short" THEN \E o \in Ops : Do(o) ELSE \E S \in {{p \in Ops : OK(p)}} : \E o \in {RandomElement({p \in S : p.op = k}) : k \in {p.op : p \in {w \in S : w.op \notin {"mnew", "lnew", "mdef", "ldef", "mcopy", "lcopy"} \/ RandomElement(1..6) = 1}}} : Do(o)
Spec == Init /\ [][Next]_vars
Done == Len(hist) = Len(Prefix) + GenDepth
Written == Done => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
=============================================================================
