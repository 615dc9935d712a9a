------------------------------ MODULE KernelGen -----------------------------
(***************************************************************************)
(* Histories of one element, generated by TLC: a base element (a plane     *)
(* quadrilateral, a warped or curved element, a graph with known curvature)*)
(* and a sequence of motions, dilations, reflections, renumberings, cuts   *)
(* and shrinkings.                                                         *)
(***************************************************************************)
EXTENDS Kernel, TLC, Json, IOUtils, CSV, SequencesExt
CONSTANTS Depth
VARIABLES C, h
vars == <<C, h>>

R(x, n) == RandomElement(-n..n)
P4(x) == {<<4 * R(x, 1), 4 * R(x, 1), 4 * R(x, 1)>>}
Flat(x) == {<<4 * R(x, 1), 4 * R(x, 1), 0>>}
Bil(c1, c3, c7, c9) == FromGrid(LAMBDA i, j : [c \in V3 |->
  ((3 - i) * (3 - j) * c1[c] + (i - 1) * (3 - j) * c3[c] + (3 - i) * (j - 1) * c7[c] + (i - 1) * (j - 1) * c9[c]) \div 4])
Pl(a, b) == [c \in V3 |-> a[c] + b[c]]
Curve(g, x) == [n \in 1..9 |-> IF n \in {1, 3, 7, 9} THEN g[n] ELSE Pl(g[n], <<R(n, 1), R(n, 1), R(n, 2)>>)]
Init == C = <<>> /\ h = <<>>
New == /\ h = <<>>
       /\ \E f \in {RandomElement({"plane", "plane", "warped", "curved", "curved", "graph"})} : \E e1 \in {RandomElement(0..4)} : \E e2 \in {RandomElement(0..4)} :
          IF f = "graph"
          THEN \E a \in {R(C, 1)} : \E m \in {R(C, 1)} : \E c \in {R(C, 1)} :
                 /\ C' = [P |-> Parab(<<e1, e2>>, a, m, c), e |-> <<e1, e2>>, den |-> 16]
                 /\ h' = <<[op |-> "new", fam |-> f, k |-> <<a, m, c>>, C |-> C']>>
          ELSE \E p1 \in IF f = "plane" THEN Flat(C) ELSE P4(C) : \E p3 \in IF f = "plane" THEN Flat(C) ELSE P4(C) :
               \E p7 \in IF f = "plane" THEN Flat(C) ELSE P4(C) : \E p9 \in IF f = "plane" THEN Flat(C) ELSE P4(C) :
               \E g \in {Bil(p1, Pl(<<16, 0, 0>>, p3), Pl(<<0, 16, 0>>, p7), Pl(<<16, 16, 0>>, p9))} :
                 /\ C' = [P |-> IF f = "curved" THEN Curve(g, C) ELSE g, e |-> <<e1, e2>>, den |-> 16]
                 /\ h' = <<[op |-> "new", fam |-> f, k |-> <<0, 0, 0>>, C |-> C']>>

\* signed permutations and a few other similarities
Sgns == {-1, 1}
Perm(p, s) == [i \in V3 |-> [j \in V3 |-> IF p[i] = j THEN s[i] ELSE 0]]
Perms == {p \in V3 \X V3 \X V3 : Cardinality({p[1], p[2], p[3]}) = 3}
Cube(x) == {Perm(RandomElement(Perms), <<RandomElement(Sgns), RandomElement(Sgns), RandomElement(Sgns)>>)}
Others == { << <<<<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 2>>>>, 2>>,
            << <<<<2, -1, 2>>, <<2, 2, -1>>, <<-1, 2, 2>>>>, 3>>,
            << <<<<1, 2, 2>>, <<2, 1, -2>>, <<2, -2, 1>>>>, 3>>,
            << <<<<3, -4, 0>>, <<4, 3, 0>>, <<0, 0, 5>>>>, 5>>,
            << <<<<-3, 0, 4>>, <<0, 5, 0>>, <<4, 0, 3>>>>, 5>> }
Fits(D) == \A n \in 1..9 : \A c \in V3 : Abs_(D.P[n][c]) <= 400
SimS == /\ h # <<>>
        /\ \E q \in {RandomElement({0, 0, 1})} : \E M \in Cube(C) : \E o \in {RandomElement(Others)} : \E t \in {<<R(C, 40), R(C, 40), R(C, 40)>>} :
           \E m \in {IF q = 0 \/ ~Fits(Sim(C, o[1], t)) \/ (o[2] > 3 /\ ~Inner(C)) THEN <<M, 1>> ELSE o} :
             /\ C' = Sim(C, m[1], t)
             /\ Fits(C') = TRUE
             /\ h' = Append(h, [op |-> "sim", M |-> m[1], k |-> m[2], t |-> t, C |-> C', C2 |-> Sim(C', m[1], <<0, 0, 0>>)])
DihS == /\ h # <<>>
        /\ \E d \in {RandomElement({"turn", "swap"})} : C' = Dih(C, d) /\ h' = Append(h, [op |-> "dih", d |-> d, C |-> C'])
Last_(x) == h[Len(h)].op
Cut == /\ h # <<>> /\ Last_(h) \notin {"split", "shrink"} /\ Cardinality(Pieces(C)) > 1
       /\ \E s \in {SetToSeq(Pieces(C))} : h' = Append(h, [op |-> "split", parts |-> [i \in DOMAIN s |-> [a |-> s[i], C |-> Sub(C, s[i])]]])
       /\ UNCHANGED C
Shrink == /\ h # <<>> /\ Last_(h) \notin {"split", "shrink"} /\ Cores(C) # {}
          /\ \E a \in {RandomElement(Cores(C))} : h' = Append(h, [op |-> "shrink", a |-> a, C |-> Sub(C, a)])
          /\ UNCHANGED C
Next == Len(h) < Depth /\ (New \/ SimS \/ DihS \/ Cut \/ Shrink)
Spec == Init /\ [][Next]_vars
Written == Len(h) = Depth => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
