-------------------------- MODULE ExpansionDesign --------------------------
(***************************************************************************)
(* The expansion objects hold a pointer to a coefficient array.  The heap  *)
(* level implements the value level of Expansion.tla: every object owns    *)
(* exactly one live array, no two objects share one, and the array holds   *)
(* the value of the object.                                                *)
(*   CopyRule    "deep" | "share"                                          *)
(*   AssignRule  "safe" | "free-first" | "share"                           *)
(***************************************************************************)
EXTENDS Expansion, TLC
CONSTANTS Slots, Depth, CopyRule, AssignRule
VARIABLES val, ptr, heap, n
vars == <<val, ptr, heap, n>>

Src == {1}
Cell(w) == [live |-> TRUE, w |-> w]
Free == [live |-> FALSE, w |-> EmptyBag]
Addr == 1..(2 * Cardinality(Slots))
Live == {a \in Addr : heap[a].live}
O(op, s, t, c, x, q) == [op |-> op, s |-> s, t |-> t, c |-> c, p |-> 1, x |-> x, q |-> q]
Ops == {O("mnew", s, s, 1, 0, 0) : s \in Slots} \cup {O("src", s, s, 0, 1, 1) : s \in Slots}
       \cup {O(op, s, t, 0, 0, 1) : op \in {"mcopy", "massign", "madd"}, s, t \in Slots}

Init == val = [s \in Slots |-> None] /\ ptr = [s \in Slots |-> 0] /\ heap = [a \in Addr |-> Free] /\ n = 0

\* constructing on a used name destroys the old object first
Destroyed(h, s) == IF ptr[s] = 0 THEN h ELSE [h EXCEPT ![ptr[s]] = Free]
Alloc(h, v) == LET a == CHOOSE a \in Addr : ~h[a].live IN <<a, [h EXCEPT ![a] = v]>>
Do(o) == /\ n < Depth /\ Guard(val, o)
         /\ val' = Step(val, o) /\ n' = n + 1
         /\ CASE o.op = "mnew" -> LET r == Alloc(Destroyed(heap, o.s), Cell(EmptyBag)) IN ptr' = [ptr EXCEPT ![o.s] = r[1]] /\ heap' = r[2]
              [] o.op = "mcopy" -> IF CopyRule = "deep"
                   THEN LET r == Alloc(Destroyed(heap, o.s), heap[ptr[o.t]]) IN ptr' = [ptr EXCEPT ![o.s] = r[1]] /\ heap' = r[2]
                   ELSE ptr' = [ptr EXCEPT ![o.s] = ptr[o.t]] /\ heap' = Destroyed(heap, o.s)
              [] o.op = "massign" ->
                   (CASE AssignRule = "safe" -> IF o.s = o.t THEN UNCHANGED <<ptr, heap>>
                          ELSE LET r == Alloc(Destroyed(heap, o.s), heap[ptr[o.t]]) IN ptr' = [ptr EXCEPT ![o.s] = r[1]] /\ heap' = r[2]
                     [] AssignRule = "free-first" -> LET h == Destroyed(heap, o.s) r == Alloc(h, h[ptr[o.t]]) IN ptr' = [ptr EXCEPT ![o.s] = r[1]] /\ heap' = r[2]
                     [] AssignRule = "share" -> ptr' = [ptr EXCEPT ![o.s] = ptr[o.t]] /\ heap' = IF o.s = o.t THEN heap ELSE Destroyed(heap, o.s))
              [] OTHER -> /\ UNCHANGED ptr
                          /\ heap' = [heap EXCEPT ![ptr[o.s]].w = IF o.op = "src" THEN Plus(@, One(o.x, 1), o.q) ELSE Plus(@, heap[ptr[o.t]].w, 1)]
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars

Objects == {s \in Slots : ~IsNone(val[s])}
Owned == \A s \in Objects : ptr[s] # 0 /\ heap[ptr[s]].live
Unshared == \A s, t \in Objects : s # t => ptr[s] # ptr[t]
NoLeak == Live = {ptr[s] : s \in Objects}
Implements == \A s \in Objects : heap[ptr[s]].w = val[s].w
\* an operation changes its target only
Local == [][\A s \in Slots : val'[s] # val[s] => \E o \in Ops : o.s = s /\ Guard(val, o) /\ val' = Step(val, o)]_vars
Small == \A s \in Objects : \A x \in DOMAIN val[s].w : val[s].w[x] < 5
=============================================================================
