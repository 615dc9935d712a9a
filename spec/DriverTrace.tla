---------------------------- MODULE DriverTrace ----------------------------
(***************************************************************************)
(* Stages recorded from a run of the real driver, see Driver.  A cell is   *)
(* the sequence of its coarse cell and the children taken from there.      *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLES cfg, phase, solves, cells, read, mesh, vec
vars == <<l, cfg, phase, solves, cells, read, mesh, vec>>
Scenario == /\ IsOp("scenario") /\ cfg' = [dim |-> 0] /\ phase' = "start" /\ solves' = 0 /\ cells' = {} /\ read' = 0 /\ mesh' = "" /\ vec' = ""
Config == IsOp("config") /\ phase = "start" /\ cfg' = Ev /\ phase' = "read" /\ UNCHANGED <<solves, cells, read, mesh, vec>>
Read == IsOp("read") /\ phase = "read" /\ read' = Ev.cells /\ phase' = "solve" /\ UNCHANGED <<cfg, solves, cells, mesh, vec>>
Last == IF cfg.global = 1 THEN 1 ELSE cfg.cycles + 1
Uniform == IF cfg.global = 1 THEN cfg.cycles ELSE cfg.pre
Ext(p, c) == Len(c) > Len(p) /\ SubSeq(c, 1, Len(p)) = p
First(C) == /\ \A c \in C : Len(c) >= Uniform + 1
            /\ cfg.plain = 1 => Cardinality(C) = read * 2^((cfg.dim - 1) * Uniform) /\ \A c \in C : Len(c) = Uniform + 1
\* an adaptively refined mesh: cells are children of old ones, old ones or their parents
Step(P, C) == /\ \A c \in C : c \in P \/ \E p \in P : Ext(p, c) \/ Ext(c, p)
              /\ Cardinality({p \in P : \E c \in C : Ext(p, c)}) >= (cfg.frac * Cardinality(P)) \div 1000
              /\ P # C
Solve == /\ IsOp("solve") /\ phase = "solve" /\ solves < Last
         /\ \E C \in {ToSet(Ev.cells)} : (IF solves = 0 THEN First(C) ELSE Step(cells, C)) = TRUE /\ cells' = C
         /\ Ev.n = Ev.size              \* the numbering is that of the mesh
         /\ solves' = solves + 1 /\ phase' = (IF solves + 1 = Last THEN "errors" ELSE "solve")
         /\ mesh' = Ev.mesh /\ vec' = Ev.vec /\ UNCHANGED <<cfg, read>>
Errors == IsOp("errors") /\ phase = "errors" /\ Ev.mesh = mesh /\ Ev.vec = vec /\ phase' = "output" /\ UNCHANGED <<cfg, solves, cells, read, mesh, vec>>
Output == IsOp("output") /\ phase = "output" /\ Ev.mesh = mesh /\ Ev.vec = vec /\ phase' = "written" /\ UNCHANGED <<cfg, solves, cells, read, mesh, vec>>
Near(a, b, t) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= t
\* a field of a result file: one value for every cell and node of the last mesh
File == /\ IsOp("file") /\ phase = "written" /\ Ev.cells = Cardinality(cells) /\ Ev.missing = 0 /\ Len(Ev.want) > 0
        /\ Val(Near(Ev.got, Ev.want, Ev.tol)) /\ UNCHANGED <<cfg, phase, solves, cells, read, mesh, vec>>
\* printed norms against the norms of the differences
Norms == /\ IsOp("norms") /\ phase = "written" /\ Ev.pcells = Cardinality(cells) /\ Ev.pn = Ev.n
         /\ Val(Near(Ev.got, Ev.want, Ev.tol)) /\ UNCHANGED <<cfg, phase, solves, cells, read, mesh, vec>>
\* all processes have seen the same
Agree == /\ IsOp("rank") /\ phase = "written" /\ Ev.solves = solves /\ Ev.mesh = mesh /\ Ev.vec = vec /\ UNCHANGED <<cfg, phase, solves, cells, read, mesh, vec>>
End == IsOp("end") /\ phase = "written" /\ phase' = "end" /\ UNCHANGED <<cfg, solves, cells, read, mesh, vec>>
TraceInit == l = 1 /\ cfg = [dim |-> 0] /\ phase = "start" /\ solves = 0 /\ cells = {} /\ read = 0 /\ mesh = "" /\ vec = ""
TraceNext == Scenario \/ Config \/ Read \/ Solve \/ Errors \/ Output \/ File \/ Norms \/ Agree \/ End
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
