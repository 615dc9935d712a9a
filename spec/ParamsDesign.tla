---------------------------- MODULE ParamsDesign ---------------------------
(***************************************************************************)
(* Reading parameter files, one after the other, into the components of a  *)
(* program, and writing the parameters used.  A file mentions some of the  *)
(* parameters; some of the values are not admissible.                      *)
(*  Variant: "ok" | "keep" omitted parameters keep the previous value      *)
(*  | "clamp" inadmissible values become the nearest admissible one        *)
(*  | "partial" values before the inadmissible one take effect             *)
(*  | "skip" unknown parameters are ignored | "mix" one component takes    *)
(*  another's value | "omit" the file written leaves one out               *)
(***************************************************************************)
EXTENDS Params, TLC
CONSTANTS Variant, MaxReads
V(n) == [t |-> "int", n |-> n, s |-> n]
Names == {"a", "b", "c"}
Tab == [k \in Names |-> [kind |-> "int", lo |-> 0, hi |-> 2, opts |-> {}, def |-> IF k = "a" THEN 0 ELSE 1]]
\* -1 and 3 are not admissible; "z" is no parameter
Known == UNION {[K -> {V(n) : n \in -1..3}] : K \in SUBSET Names}
Files == Known \cup {("z" :> V(1)) @@ f : f \in {g \in Known : Cardinality(DOMAIN g) <= 1}}
VARIABLES comp, written, status, reads, last
vars == <<comp, written, status, reads, last>>
Init == /\ comp = [k \in Names |-> Tab[k].def] /\ written = [k \in {} |-> V(0)] /\ status = "new" /\ reads = 0 /\ last = [k \in {} |-> V(0)]
Clamp(n) == IF n < 0 THEN 0 ELSE IF n > 2 THEN 2 ELSE n
Good(f) == Accepts(Tab, IF Variant = "skip" THEN [k \in DOMAIN f \cap Names |-> f[k]] ELSE f)
Take(f) == LET g == IF Variant = "clamp" THEN [k \in DOMAIN f |-> V(Clamp(f[k].n))] ELSE f
               base == IF Variant = "keep" THEN [k \in Names |-> IF k \in DOMAIN g THEN g[k].s ELSE comp[k]] ELSE Settings(Tab, [k \in DOMAIN g \cap Names |-> g[k]])
           IN IF Variant = "mix" THEN [base EXCEPT !["c"] = base["b"]] ELSE base
Read(f) == /\ reads < MaxReads /\ reads' = reads + 1 /\ last' = f /\ UNCHANGED written
           /\ IF Good(f) \/ (Variant = "clamp" /\ DOMAIN f \subseteq Names)
              THEN comp' = Take(f) /\ status' = "ok"
              ELSE /\ status' = "rejected"
                   /\ comp' = IF Variant = "partial" /\ "a" \in DOMAIN f /\ Valid(Tab["a"], f["a"]) THEN [comp EXCEPT !["a"] = f["a"].s] ELSE comp
Write == /\ status = "ok" /\ written' = [k \in (IF Variant = "omit" THEN Names \ {"b"} ELSE Names) |-> V(comp[k])] /\ UNCHANGED <<comp, status, reads, last>>
Next == (\E f \in Files : Read(f)) \/ Write
Spec == Init /\ [][Next]_vars
\* omitted ones have their defaults, the others what the file says
Honoured == status = "ok" => \A k \in Names : comp[k] = (IF k \in DOMAIN last THEN last[k].n ELSE Tab[k].def)
NoSilent == status = "ok" => DOMAIN last \subseteq Names /\ \A k \in DOMAIN last : last[k].n \in 0..2
\* a rejected file leaves no trace
Atomic == [][status' = "rejected" => comp' = comp]_vars
\* what was written, read again, gives the same settings
RoundTrip == \A k \in Names : written # <<>> /\ status = "ok" /\ written = [x \in DOMAIN written |-> V(comp[x])] => Settings(Tab, written)[k] = comp[k]
=============================================================================
