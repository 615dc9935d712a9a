-------------------------- MODULE ConstrainedGen ---------------------------
(***************************************************************************)
(* Test generation: writes every constraint table of the design (N = 3)    *)
(* with a vector and a right-hand side, to be replayed on the real class.  *)
(***************************************************************************)
EXTENDS Constrained, SequencesExt, TLC, Json, IOUtils

Idx == 1..3
A == [i \in Idx |-> [j \in Idx |-> IF i = j THEN 3 ELSE ((i * 5 + j * 3) % 4) - 1]]
Lines == {[m |-> S, wt |-> wt, h |-> hh] : S \in {T \in SUBSET Idx : Cardinality(T) <= 2}, wt \in {1, -2}, hh \in {0, 3}}
Tables == UNION {{c \in [C -> Lines] : \A i \in C : c[i].m \cap C = {}} : C \in SUBSET Idx}
Rec(c) == [A |-> A, x |-> <<1, -4, 7>>, b |-> <<10, 20, 30>>,
           con |-> SetToSeq({[i |-> i, m |-> SetToSeq(c[i].m), w |-> [k \in 1..Cardinality(c[i].m) |-> c[i].wt], h |-> c[i].h] : i \in DOMAIN c})]
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({Rec(c) : c \in Tables}))
=============================================================================
