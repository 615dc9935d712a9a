------------------------------- MODULE Params ------------------------------
(***************************************************************************)
(* The parameters of the program: what each one is called, which values it *)
(* may take, what it is when the file does not mention it, and which parts *)
(* of a simulation it governs.                                             *)
(*                                                                         *)
(* A value is [t, n, s]: the kind of text found in the file, its number    *)
(* (in thousandths) and the canonical form of what it means.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
NoB == 2000000000
\* lo/hi in thousandths
I(lo, hi, d) == [kind |-> "int", lo |-> lo, hi |-> hi, opts |-> {}, def |-> d]
R(lo, hi, d) == [kind |-> "real", lo |-> lo, hi |-> hi, opts |-> {}, def |-> d]
B(d) == [kind |-> "bool", lo |-> 0, hi |-> 0, opts |-> {}, def |-> d]
S(o, d) == [kind |-> "word", lo |-> 0, hi |-> 0, opts |-> o, def |-> d]
T(d) == [kind |-> "text", lo |-> 0, hi |-> 0, opts |-> {}, def |-> d]
L(d) == [kind |-> "list", lo |-> 0, hi |-> 0, opts |-> {}, def |-> d]
F(d) == [kind |-> "func", lo |-> 0, hi |-> 0, opts |-> {}, def |-> d]
Quadratures == {"gauss", "gauss_lobatto", "gauss_chebyshev", "midpoint", "milne", "simpson", "trapez", "weddle"}

Common == [order |-> I(0, 10000, "6"), gran |-> I(1000, NoB, "10"), maxn |-> I(0, NoB, "20"), levels |-> I(1000, NoB, "10"),
  cont |-> B("true"), mapdeg |-> I(1000, NoB, "1"), maptype |-> S({"FE", "Q"}, "FE"), prec |-> S({"ILU", "AMG"}, "ILU"),
  method |-> S({"Direct", "FMA"}, "Direct"), coarsen |-> R(0, 1000, "0.03"), refine |-> R(0, 1000, "0.3"),
  qorder |-> I(0, NoB, "4"), qtype |-> S(Quadratures, "gauss"), sorder |-> I(1000, NoB, "5"),
  sfe |-> S({"FEQ", "FEDGQ"}, "FEQ"), sord |-> I(0, NoB, "1"), vfe |-> S({"FEQ", "FEDGQ"}, "FEQ"), vord |-> I(0, NoB, "1"),
  maxsteps |-> I(0 - NoB, NoB, "100"), tol |-> R(0 - NoB, NoB, "1e-10"), out |-> T("result"),
  cpc |-> R(0, NoB, "12"), fmt |-> S({"inp", "msh", "vtk"}, "inp"), aspect |-> R(0, NoB, "3.5"),
  cycles |-> I(0, NoB, "2"), pre |-> I(0, NoB, "0"), curv |-> B("false"), cad |-> B("false"), maxcurv |-> I(0, NoB, "5"),
  cadpath |-> T("./"), cadtol |-> R(0, NoB, "100"), spheroid |-> B("false"), ax |-> R(0, NoB, "2"), ay |-> R(0, NoB, "3"), az |-> R(0, NoB, "4"),
  dids |-> L("1,110,110"), nids |-> L("0,110,110"), global |-> B("true")]
\* a function is represented by its values at a probe point, multiples of 1/4
Table(dim) == IF dim = 3
  THEN Common @@ [grid |-> T("../grids/coarse_cube_double_nodes"), pot |-> F("1.5"), wind |-> F("1,1,1")]
  ELSE Common @@ [grid |-> T("../grids/circle"), pot |-> F("0.75"), wind |-> F("1,1")]

Valid(p, v) == CASE p.kind = "int" -> v.t = "int" /\ p.lo <= v.n /\ v.n <= p.hi
                 [] p.kind = "real" -> v.t \in {"int", "real"} /\ p.lo <= v.n /\ v.n <= p.hi
                 [] p.kind = "word" -> v.s \in p.opts
                 [] p.kind = "text" -> TRUE
                 [] OTHER -> v.t = p.kind
\* the settings after reading a file that gives the values `set` (key -> value)
Accepts(tab, set) == \A k \in DOMAIN set : k \in DOMAIN tab /\ Valid(tab[k], set[k])
Settings(tab, set) == [k \in DOMAIN tab |-> IF k \in DOMAIN set THEN set[k].s ELSE tab[k].def]

(***************************************************************************)
(* Which parts of a simulation a parameter governs.  Parts:                *)
(*  mesh   cells of the mesh on which the simulation starts                *)
(*  seq    the sequence of meshes solved                                   *)
(*  shape  location of the nodes        quad   of the quadrature points    *)
(*  dofs   number of scalar unknowns     vdofs  of vector unknowns         *)
(*  types  potential/flux type of nodes  constr  constraints               *)
(*  dense  the integral operators        sing   their singular integrals   *)
(*  tree   the octree                    fma    the fast operator          *)
(*  data   imposed values                sol    the solution               *)
(*  iter   the iteration (its start-up, its end or its failure)            *)
(*  files  names of the files written                                      *)
(* Must: changes when the value changes as in the experiment; May: may     *)
(* change as a consequence.                                                *)
(***************************************************************************)
E(must, may) == [must |-> must, may |-> must \cup may]
All == {"mesh", "seq", "shape", "quad", "dofs", "vdofs", "types", "constr", "dense", "sing", "tree", "fma", "data", "sol", "iter", "files"}
Effect == [order |-> E({"fma", "sol"}, {"iter"}), gran |-> E({}, {}), maxn |-> E({"tree"}, {"fma", "sol", "iter"}), levels |-> E({"tree"}, {"fma", "sol", "iter"}),
  cont |-> E({"constr"}, {"sol", "iter"}), mapdeg |-> E({"dense", "sol"}, All \ {"mesh", "dofs", "vdofs", "types", "files"}),
  maptype |-> E({"dense", "sol"}, All \ {"mesh", "dofs", "vdofs", "types", "files"}),
  prec |-> E({"iter"}, {}), method |-> E({"sol"}, {"iter", "fma", "tree"}),
  coarsen |-> E({"seq"}, All \ {"mesh", "files"}), refine |-> E({"seq"}, All \ {"mesh", "files"}),
  qorder |-> E({"dense", "sol"}, {"constr", "data", "iter", "fma", "tree", "sing", "quad"}), qtype |-> E({"dense", "sol"}, {"constr", "data", "iter", "fma", "tree", "quad", "sing"}),
  sorder |-> E({"sing", "sol"}, {"dense", "iter", "fma"}),
  sfe |-> E({"dofs", "constr"}, All \ {"mesh", "files"}), vfe |-> E({"dofs", "constr"}, All \ {"mesh", "files"}),
  sord |-> E({"dofs", "shape"}, All \ {"mesh", "files"}), vord |-> E({"vdofs"}, All \ {"mesh", "files"}),
  maxsteps |-> E({"iter"}, {"sol", "seq", "files"}), tol |-> E({"iter"}, {"sol"}), out |-> E({"files"}, {}),
  pot |-> E({"data", "sol"}, {"iter"}), wind |-> E({"data", "sol"}, {"iter"}),
  fmt |-> E({"mesh"}, All \ {"files"}), grid |-> E({"mesh"}, All \ {"files"}), aspect |-> E({"seq"}, All \ {"files", "mesh"}),
  cycles |-> E({"seq"}, All \ {"files"}), pre |-> E({"seq"}, All \ {"files"}), global |-> E({"seq"}, All \ {"files"}),
  spheroid |-> E({"shape", "dense"}, All \ {"mesh", "dofs", "vdofs", "types", "files", "seq"}), ax |-> E({"shape", "dense"}, All \ {"mesh", "dofs", "vdofs", "types", "files", "seq"}),
  ay |-> E({"shape", "dense"}, All \ {"mesh", "dofs", "vdofs", "types", "files", "seq"}), az |-> E({"shape", "dense"}, All \ {"mesh", "dofs", "vdofs", "types", "files", "seq"}),
  dids |-> E({"types", "data"}, {"constr", "sol", "iter", "fma"}), nids |-> E({"data"}, {"sol", "iter"}),
  cad |-> E({"shape"}, All \ {"mesh", "files"}), cadpath |-> E({"shape"}, All \ {"mesh", "files"}), cadtol |-> E({"shape"}, All \ {"mesh", "files"}),
  curv |-> E({"seq"}, All \ {"mesh", "files"}), maxcurv |-> E({"seq"}, All \ {"mesh", "files"}), cpc |-> E({"seq"}, All \ {"mesh", "files"})]
=============================================================================
