---------------------------- MODULE ParallelFMA ----------------------------
(***************************************************************************)
(* Schedules of the accelerator's parallel loops.                          *)
(*                                                                         *)
(* Upward pass: per level, bottom to top, the blocks of the level are      *)
(* items; a worker thread reads its block's expansion and computes the     *)
(* translated copy; a copier adds the copy to the parent's expansion (read *)
(* then write, not atomic).  Downward pass, on every process: a block that *)
(* holds a node of the process receives the far contribution, for the      *)
(* nodes of the process; the contributions of all processes are summed.    *)
(* An expansion is the bag (function to counts) of the leaves whose        *)
(* sources it has absorbed.                                                *)
(*   Add      "copier" (one at a time) | "worker" (by the worker itself)   *)
(*   Barrier  levels are separated                                         *)
(*   Nodes    "owned" (only nodes of the process) | "block" (all nodes of  *)
(*            the block)                                                   *)
(* Every schedule must end with the root expansion counting every leaf     *)
(* once, no two threads changing one expansion at a time, and every node   *)
(* receiving its far contribution once.                                    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Threads, Par, Level, MaxLevel, Procs, NodeBlock, Owners, Add, Barrier, NodesRule
\* Par: parent (function blocks -> block, root maps to itself), Level: function
VARIABLES lvl, st, exp, cp, who, reg, recv, owner, pc
vars == <<lvl, st, exp, cp, who, reg, recv, owner, pc>>
Blocks == DOMAIN Par
Leaves == {b \in Blocks : \A c \in Blocks : c # b => Par[c] # b}
Zero == [f \in Leaves |-> 0]
Plus(a, b) == [f \in Leaves |-> a[f] + b[f]]
AllNodes == DOMAIN NodeBlock

Init == /\ lvl = MaxLevel /\ pc = "up"
        /\ st = [b \in Blocks |-> "todo"] /\ exp = [b \in Blocks |-> IF b \in Leaves THEN [Zero EXCEPT ![b] = 1] ELSE Zero]
        /\ cp = [b \in Blocks |-> Zero] /\ who = [b \in Blocks |-> 0] /\ reg = [b \in Blocks |-> Zero]
        /\ recv = [i \in AllNodes |-> 0]
        /\ owner \in Owners

Busy(t) == \E b \in Blocks : who[b] = t
InReach(b) == Level[b] > 0 /\ (Barrier => Level[b] = lvl)
Take(t, b) == /\ pc = "up" /\ ~Busy(t) /\ st[b] = "todo" /\ InReach(b)
              /\ st' = [st EXCEPT ![b] = "work"] /\ who' = [who EXCEPT ![b] = t]
              /\ UNCHANGED <<lvl, exp, cp, reg, recv, owner, pc>>
Translate(t, b) == /\ st[b] = "work" /\ who[b] = t
                   /\ cp' = [cp EXCEPT ![b] = exp[b]] /\ st' = [st EXCEPT ![b] = "copy"]
                   /\ who' = [who EXCEPT ![b] = IF Add = "copier" THEN 0 ELSE t]
                   /\ UNCHANGED <<lvl, exp, reg, recv, owner, pc>>
Adding == {b \in Blocks : st[b] = "add"}
AddRead(b) == /\ st[b] = "copy" /\ (Add = "copier" => Adding = {})
              /\ reg' = [reg EXCEPT ![b] = exp[Par[b]]] /\ st' = [st EXCEPT ![b] = "add"]
              /\ UNCHANGED <<lvl, exp, cp, who, recv, owner, pc>>
AddWrite(b) == /\ st[b] = "add"
               /\ exp' = [exp EXCEPT ![Par[b]] = Plus(reg[b], cp[b])] /\ st' = [st EXCEPT ![b] = "done"]
               /\ who' = [who EXCEPT ![b] = 0]
               /\ UNCHANGED <<lvl, cp, reg, recv, owner, pc>>
LevelDone == /\ pc = "up" /\ Barrier /\ lvl > 0 /\ \A b \in Blocks : Level[b] = lvl => st[b] = "done"
             /\ lvl' = lvl - 1 /\ UNCHANGED <<st, exp, cp, who, reg, recv, owner, pc>>
UpDone == /\ pc = "up" /\ \A b \in Blocks : Level[b] > 0 => st[b] = "done"
          /\ pc' = "down" /\ st' = [b \in Blocks |-> "todo"]
          /\ UNCHANGED <<lvl, exp, cp, who, reg, recv, owner>>
NodesOf(b) == {i \in AllNodes : NodeBlock[i] = b}
\* st is reused: set of processes that have done the block, encoded in `reg`-free form
Down == /\ pc = "down"
        /\ recv' = [i \in AllNodes |->
             Cardinality({p \in Procs : LET b == NodeBlock[i] IN
                 IF NodesRule = "owned" THEN owner[i] = p ELSE \E k \in NodesOf(b) : owner[k] = p})]
        /\ pc' = "end" /\ UNCHANGED <<lvl, st, exp, cp, who, reg, owner>>
Done == pc = "end" /\ UNCHANGED vars
Next == \/ \E t \in 1..Threads, b \in Blocks : Take(t, b) \/ Translate(t, b)
        \/ \E b \in Blocks : AddRead(b) \/ AddWrite(b)
        \/ LevelDone \/ UpDone \/ Down \/ Done
Spec == Init /\ [][Next]_vars

Root == CHOOSE b \in Blocks : Par[b] = b
Complete == pc # "up" => \A f \in Leaves : exp[Root][f] = 1
Exclusive == \A a, b \in Blocks : a # b /\ st[a] = "add" /\ st[b] = "add" => Par[a] # Par[b]
ReceivedOnce == pc = "end" => \A i \in AllNodes : recv[i] = 1

\* instance: root 1; 2, 3; leaves 4, 5 (of 2), 6 (of 3)
MPar == 1 :> 1 @@ 2 :> 1 @@ 3 :> 1 @@ 4 :> 2 @@ 5 :> 2 @@ 6 :> 3
MLevel == 1 :> 0 @@ 2 :> 1 @@ 3 :> 1 @@ 4 :> 2 @@ 5 :> 2 @@ 6 :> 2
MNode == 1 :> 4 @@ 2 :> 4 @@ 3 :> 5 @@ 4 :> 6
MOwners == {<<a, b, c, d>> : a \in 1..2, b \in 1..2, c \in {1}, d \in {2}}
=============================================================================
