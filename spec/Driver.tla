------------------------------- MODULE Driver ------------------------------
(***************************************************************************)
(* One simulation: the order of its stages and what they refer to.         *)
(* A mesh is a version number; the derived objects remember the version    *)
(* they were made for.  The configuration is chosen at the start.          *)
(*   Fault  the wrong designs:                                             *)
(*     "late"     the mesh is refined once more after the last solve       *)
(*     "once"     re-initialisation only before the first solve            *)
(*     "short"    one solve too few                                        *)
(*     "early"    the errors are computed before the last solve            *)
(*     "both"     pre-refinements are also done for global refinement      *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS MaxCycles, MaxPre, Fault
VARIABLES global, cycles, pre, pc, i, reads, refined, adapted, num, sol, solves, errs, outs, log
vars == <<global, cycles, pre, pc, i, reads, refined, adapted, num, sol, solves, errs, outs, log>>
Mesh == <<refined, adapted>>
No == <<-1, -1>>
Init == /\ global \in BOOLEAN /\ cycles \in 0..MaxCycles /\ pre \in 0..MaxPre
        /\ pc = "read" /\ i = 0 /\ reads = 0 /\ refined = 0 /\ adapted = 0
        /\ num = No /\ sol = No /\ solves = 0 /\ errs = No /\ outs = No /\ log = <<>>
Cfg == <<global, cycles, pre>>
Read == /\ pc = "read" /\ pc' = "refine" /\ reads' = reads + 1 /\ refined' = 0
        /\ UNCHANGED <<global, cycles, pre, i, adapted, num, sol, solves, errs, outs, log>>
Refine == /\ pc = "refine" /\ pc' = "reinit"
          /\ refined' = refined + (IF global THEN cycles ELSE pre) + (IF Fault = "both" /\ global THEN pre ELSE 0)
          /\ UNCHANGED <<global, cycles, pre, i, reads, adapted, num, sol, solves, errs, outs, log>>
Last == IF global THEN 0 ELSE IF Fault = "short" THEN cycles - 1 ELSE cycles
Reinit == /\ pc = "reinit" /\ pc' = "solve"
          /\ num' = (IF Fault = "once" /\ num # No THEN num ELSE Mesh)
          /\ UNCHANGED <<global, cycles, pre, i, reads, refined, adapted, sol, solves, errs, outs, log>>
Solve == /\ pc = "solve" /\ sol' = num /\ solves' = solves + 1 /\ log' = Append(log, Mesh)
         /\ pc' = (IF ~global /\ (i < Last \/ Fault = "late") THEN "adapt" ELSE "errors")
         /\ errs' = (IF Fault = "early" /\ i = 0 THEN num ELSE errs)
         /\ UNCHANGED <<global, cycles, pre, i, reads, refined, adapted, num, outs>>
Adapt == /\ pc = "adapt" /\ adapted' = adapted + 1 /\ i' = i + 1
         /\ pc' = (IF i < Last THEN "reinit" ELSE "errors")
         /\ UNCHANGED <<global, cycles, pre, reads, refined, num, sol, solves, errs, outs, log>>
Errors == /\ pc = "errors" /\ pc' = "output" /\ errs' = (IF Fault = "early" THEN errs ELSE sol)
          /\ UNCHANGED <<global, cycles, pre, i, reads, refined, adapted, num, sol, solves, outs, log>>
Output == /\ pc = "output" /\ pc' = "end" /\ outs' = sol
          /\ UNCHANGED <<global, cycles, pre, i, reads, refined, adapted, num, sol, solves, errs, log>>
Next == Read \/ Refine \/ Reinit \/ Solve \/ Adapt \/ Errors \/ Output
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* what a user relies on
Solved == solves = Len(log) /\ (pc = "errors" \/ pc = "output" \/ pc = "end" => solves = (IF global THEN 1 ELSE cycles + 1))
Increasing == \A k \in 1..Len(log) : log[k] = <<IF global THEN cycles ELSE pre, k - 1>>
Current == pc \in {"errors", "output", "end"} => sol = Mesh
Reported == pc = "end" => errs = Mesh /\ outs = Mesh /\ sol = Mesh
Once == reads <= 1
Ends == <>(pc = "end")
=============================================================================
