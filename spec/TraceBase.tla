----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Common part of the trace specifications.  A trace is a sequence of      *)
(* records recorded from the real code; the specification consumes one     *)
(* record per step, and accepts the trace when it has consumed all.        *)
(* A scenario starts with [op |-> "scenario"], which resets the state.     *)
(* An abnormal end of the real code (crash, exception, time-out) appears   *)
(* as [op |-> "abnormal"], which no specification has an action for.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

Ev == Log[l]
IsOp(o) == l <= Len(Log) /\ Log[l].op = o /\ l' = l + 1

\* evaluate a predicate as a value: inside an action TLC would otherwise walk
\* a long \A as a chain of conjuncts of the next-state relation
Val(P) == P = TRUE

ToSet(s) == {s[i] : i \in DOMAIN s}
Abs(x) == IF x < 0 THEN -x ELSE x
Has(r, f) == f \in DOMAIN r

TraceAccepted == \/ TLCGet("stats").diameter - 1 = Len(Log)
                 \/ (PrintT("TRACE-STUCK-AT " \o ToString(TLCGet("stats").diameter)) /\ FALSE)
=============================================================================
