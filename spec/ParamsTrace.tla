---------------------------- MODULE ParamsTrace ----------------------------
(***************************************************************************)
(* Recorded readings of parameter files (what every component holds        *)
(* afterwards), runs with the file of used parameters they write, and      *)
(* experiments in which one parameter is changed.                          *)
(***************************************************************************)
EXTENDS TraceBase, Params
VARIABLES dim, cfg, res
vars == <<l, dim, cfg, res>>
Empty == [k \in {} |-> ""]
Tab == Table(dim)
Scenario == IsOp("scenario") /\ dim' = 0 /\ cfg' = Empty /\ res' = Empty
Begin == IsOp("begin") /\ dim' = Ev.dim /\ cfg' = Empty /\ UNCHANGED res

\* number of points of a one dimensional rule; 0: the order does not fit the rule
Rule(t, n) == IF t \in {"gauss", "gauss_lobatto", "gauss_chebyshev"} THEN (IF n >= (IF t = "gauss_lobatto" THEN 2 ELSE 1) THEN n ELSE 0)
              ELSE IF n # 0 THEN 0 ELSE CASE t = "midpoint" -> 1 [] t = "trapez" -> 2 [] t = "simpson" -> 3 [] t = "milne" -> 5 [] t = "weddle" -> 7
Get(set, k) == IF k \in DOMAIN set THEN set[k].s ELSE Tab[k].def
Count(set) == IF "qorder" \in DOMAIN set THEN set["qorder"].n \div 1000 ELSE 4
RuleOf(set) == Rule(Get(set, "qtype"), Count(set))
Ok(set) == Accepts(Tab, set) /\ RuleOf(set) > 0
Power(n) == IF dim = 3 THEN n * n ELSE n
Late(set) == \E k \in DOMAIN set : k \in {"pot", "wind"} /\ set[k].t = "junk"
\* a file: all of it is taken, or none
Read == /\ IsOp("read") /\ UNCHANGED <<dim, res>>
        /\ IF Ok(Ev.set) THEN /\ Ev.res = "ok"
                              /\ cfg' = Settings(Tab, Ev.set)
                              /\ Val(\A k \in DOMAIN Tab \ {"qtype"} : Ev.obs[k] = cfg'[k])
                              /\ Ev.nquad = Power(RuleOf(Ev.set))
           \* a function that cannot be evaluated may be found out only when it is first needed
           ELSE Ev.res = "rejected" /\ cfg' = cfg /\ Val(Late(Ev.set) \/ DOMAIN Ev.obs = {} \/ (cfg # Empty /\ \A k \in DOMAIN Tab \ {"qtype"} : Ev.obs[k] = cfg[k]))
\* a run of the program reports the parameters used
Run == /\ IsOp("run") /\ dim' = Ev.dim
       /\ cfg' = Settings(Table(Ev.dim), Ev.set)
       /\ Ev.rc = 0
       /\ Val(\A k \in DOMAIN Table(Ev.dim) : k \in DOMAIN Ev.used /\ Ev.used[k] = cfg'[k])
       /\ res' = Ev.result
\* ... and with that file does the same again
Again == /\ IsOp("rerun") /\ UNCHANGED <<dim, cfg, res>>
         /\ Ev.rc = 0
         /\ Val(\A k \in DOMAIN cfg : Ev.used[k] = cfg[k])
         /\ Val(DOMAIN Ev.result = DOMAIN res /\ \A k \in DOMAIN res : res[k] = Ev.result[k])
\* a run that cannot start with these parameters ends with an error
Refused == /\ IsOp("refused") /\ ~Accepts(Table(Ev.dim), Ev.set) /\ Ev.rc # 0 /\ Ev.solved = 0 /\ UNCHANGED <<dim, cfg, res>>
\* something the parameters name does not exist: an error, no result
Missing == /\ IsOp("missing") /\ Ev.rc # 0 /\ Ev.signal = 0 /\ Ev.solved = 0 /\ UNCHANGED <<dim, cfg, res>>
\* one parameter changed: what it governs changes, what it does not govern is as before
Changed == /\ IsOp("effect")
           /\ Val(\A p \in Effect[Ev.key].must : p \in DOMAIN Ev.part => Ev.part[p])
           /\ Val(Effect[Ev.key].must \cap DOMAIN Ev.part # {} \/ Effect[Ev.key].must = {})
           /\ Val(\A p \in DOMAIN Ev.part : Ev.part[p] => p \in Effect[Ev.key].may)
           /\ UNCHANGED <<dim, cfg, res>>
TraceInit == l = 1 /\ dim = 0 /\ cfg = Empty /\ res = Empty
TraceNext == Scenario \/ Begin \/ Read \/ Run \/ Again \/ Refused \/ Missing \/ Changed
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
