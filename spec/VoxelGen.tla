------------------------------ MODULE VoxelGen ------------------------------
(***************************************************************************)
(* Test problems generated by TLC: a manifold body grown cell by cell, a   *)
(* boundary condition for every face, a harmonic polynomial, the place,    *)
(* the element order, the refinement and the number of processes.          *)
(***************************************************************************)
EXTENDS Voxel, TLC, Json, IOUtils, CSV, SequencesExt
CONSTANTS K, D, MaxCells, Orders
VARIABLES body, todo, bc, style, prob, pc
vars == <<body, todo, bc, style, prob, pc>>
Cells == [1..D -> 0..K - 1]
Init == /\ body = {[a \in 1..D |-> 0]} /\ todo = <<>> /\ bc = <<>> /\ style = "" /\ prob = <<>> /\ pc = "grow"
AddCell == /\ pc = "grow" /\ Cardinality(body) < MaxCells
           /\ \E c \in Cells \ body : /\ \E b \in body : Adjacent(b, c)
                                       /\ body' = body \cup {c}
           /\ UNCHANGED <<todo, bc, style, prob, pc>>
Close == /\ pc = "grow" /\ Manifold(body) = TRUE
         /\ \E s \in {RandomElement({"all", "one", "axis", "any", "any", "any", "cell"})} : style' = s
         /\ todo' = SetToSeq(Faces(body)) /\ pc' = "bc" /\ UNCHANGED <<body, bc, prob>>
Kind(f) == CASE style = "all" -> 1
             [] style = "one" -> IF bc = <<>> THEN 1 ELSE 0
             [] style = "axis" -> IF f[2] = 1 THEN f[3] ELSE IF f[2] = 2 THEN 1 - f[3] ELSE 1
             [] style = "cell" -> IF f[1] = todo[1][1] /\ bc # <<>> /\ f[2] # 1 THEN 0 ELSE 1
             [] OTHER -> RandomElement({0, 1})
\* the last face gets the potential when no other one has
Assign == /\ pc = "bc" /\ todo # <<>>
          /\ \E k \in {Kind(Head(todo))} :
               bc' = Append(bc, <<Head(todo), IF Len(todo) = 1 /\ \A i \in DOMAIN bc : bc[i][2] = 0 THEN 1 ELSE k>>)
          /\ todo' = Tail(todo) /\ UNCHANGED <<body, style, prob, pc>>
M(c, e) == <<c, e>>
R(n) == RandomElement(-n..n)
\* terms of a harmonic polynomial (zero coefficients are harmless)
Lin(x) == IF D = 2 THEN {M(R(3), <<1, 0>>), M(R(3), <<0, 1>>), M(R(3), <<0, 0>>)} ELSE {M(R(3), <<1, 0, 0>>), M(R(3), <<0, 1, 0>>), M(R(3), <<0, 0, 1>>), M(R(3), <<0, 0, 0>>)}
Problem == /\ pc = "bc" /\ todo = <<>> /\ pc' = "done"
           /\ \E o \in {RandomElement(Orders)} : \E a \in {R(2)} : \E b \in {R(2)} : \E c \in {R(2)} : \E e \in {R(1)} : \E L \in {Lin(bc)} :
              \E q \in {IF o = 1 THEN {} ELSE IF D = 2 THEN {M(a, <<2, 0>>), M(-a, <<0, 2>>), M(c, <<1, 1>>)}
                        ELSE {M(a, <<2, 0, 0>>), M(b, <<0, 2, 0>>), M(-a - b, <<0, 0, 2>>), M(c, <<1, 1, 0>>), M(e, <<0, 1, 1>>)}} :
              \E t \in {IF o < 3 THEN {} ELSE IF D = 2 THEN {M(1, <<3, 0>>), M(-3, <<1, 2>>)} ELSE {M(1, <<1, 1, 1>>)}} :
              \E r \in {RandomElement({1, 1, 2})} : \E rot \in {RandomElement(0..3)} : \E np \in {RandomElement({1, 1, 2, 3})} : \E loc \in {RandomElement({0, 0, 1, 2})} :
                /\ Harmonic(q \cup t, D, 3) = TRUE
                /\ prob' = [order |-> o, poly |-> SetToSeq(L \cup q \cup t), r |-> r, rot |-> rot, np |-> np, loc |-> loc, split |-> TRUE]
           /\ UNCHANGED <<body, todo, bc, style>>
Next == AddCell \/ Close \/ Assign \/ Problem
Spec == Init /\ [][Next]_vars
Written == pc = "done" => CSVWrite("%1$s", <<ToJson([body |-> SetToSeq(body), bc |-> bc, style |-> style, prob |-> prob])>>, IOEnv.OUT)
=============================================================================
