----------------------------- MODULE VoxelTrace -----------------------------
(***************************************************************************)
(* Fields computed by the real code on bodies of unit cells, against the   *)
(* exact values.  e.S: units of the node coordinates; e.M: units of the    *)
(* element centres; e.U: units of the values.                              *)
(***************************************************************************)
EXTENDS TraceBase, Voxel
VARIABLES body, poly, o      \* o: 1 for outward normals, -1 for inward ones
vars == <<l, body, poly, o>>

Scenario == IsOp("scenario") /\ body' = {} /\ poly' = {} /\ o' = 1
Body == /\ IsOp("body")
        /\ o' = Ev.o /\ body' = ToSet(Ev.cells) /\ poly' = {<<t[1], t[2]>> : t \in ToSet(Ev.poly)}
        \* the problem itself must be in the scope of the property
        /\ Val(Manifold(body')) /\ Val(Connected(body')) /\ Val(Harmonic(poly', Ev.dim, Ev.D))

\* free-term coefficients: the interior solid angle (negative for inward normals); the same at coincident nodes
AlphaOk(e) == \A i \in DOMAIN e.a : Abs(e.a[i] - o * Count(body, e.x[i], e.S) * e.unit) <= e.tol
Same(e) == \A g \in ToSet(e.groups) : \A i, j \in ToSet(g) : Abs(e.a[i] - e.a[j]) <= e.same
Alpha == IsOp("alpha") /\ Val(AlphaOk(Ev)) /\ Val(Same(Ev)) /\ UNCHANGED <<body, poly, o>>

\* solution: every node of every element, with the element's face
Out(f) == o * (2 * f[3] - 1)
FieldOk(e) == \A r \in ToSet(e.rows) :
   /\ OnFace(body, r.m, e.M)
   /\ Abs(r.p - e.U * Value(poly, r.x, e.S, e.D)) <= e.ptol
   /\ LET f == FaceOf(body, r.m, e.M) IN Abs(r.d - e.U * Out(f) * Slope(poly, r.x, f[2], e.S, e.D)) <= e.dtol
Field == IsOp("field") /\ Val(FieldOk(Ev)) /\ UNCHANGED <<body, poly, o>>

GradOk(e) == \A r \in ToSet(e.rows) : \A a \in DOMAIN r.x : Abs(r.v[a] - e.U * Slope(poly, r.x, a, e.S, e.D)) <= e.tol
Gradient == IsOp("gradient") /\ Val(GradOk(Ev)) /\ UNCHANGED <<body, poly, o>>
\* hypersingular recovery: e.convex restricts to the points where the body is locally
\* convex; hanging nodes (r.h = 1) then count on convex bodies only
HypOk(e) == \E C \in {{r \in ToSet(e.rows) : e.convex = 0 \/ Convex(body, r.x, e.S)}} : \E all \in {C = ToSet(e.rows)} :
   \A r \in C : (r.h = 1 => all) => \A a \in DOMAIN r.x : Abs(r.v[a] - e.U * Slope(poly, r.x, a, e.S, e.D)) <= e.tol
Hyp == IsOp("hyp") /\ Val(HypOk(Ev)) /\ UNCHANGED <<body, poly, o>>
\* surface gradients: the exact gradient without its normal component
SurfOk(e) == \A r \in ToSet(e.rows) : LET f == FaceOf(body, r.m, e.M) IN
   \A a \in DOMAIN r.x : Abs(r.v[a] - (IF a = f[2] THEN 0 ELSE e.U * Slope(poly, r.x, a, e.S, e.D))) <= e.tol
Surf == IsOp("surf") /\ Val(SurfOk(Ev)) /\ UNCHANGED <<body, poly, o>>
NormalOk(e) == \A r \in ToSet(e.rows) : /\ OnFace(body, r.m, e.M)
   /\ LET f == FaceOf(body, r.m, e.M) IN \A a \in DOMAIN r.x : Abs(r.v[a] - (IF a = f[2] THEN e.unit * Out(f) ELSE 0)) <= e.tol
Normals == IsOp("normals") /\ Val(NormalOk(Ev)) /\ UNCHANGED <<body, poly, o>>
\* number of nodes and elements, so that nothing is missing: every face carries r^(d-1) elements or more
Complete(e) == {FaceOf(body, m, e.M) : m \in ToSet(e.centres)} = Faces(body) /\ \A m \in ToSet(e.centres) : OnFace(body, m, e.M)
Cover == IsOp("cover") /\ Val(Complete(Ev)) /\ UNCHANGED <<body, poly, o>>
\* errors on finer and finer meshes of a curved body
Falls(e) == \A i \in 1..Len(e.err) - 1 : e.err[i + 1] * 100 <= e.err[i] * e.ratio + 100 * e.floor
Conv == IsOp("conv") /\ Val(Len(Ev.err) >= 2) /\ Val(Falls(Ev)) /\ Val(Ev.err[Len(Ev.err)] <= Ev.last) /\ UNCHANGED <<body, poly, o>>

TraceInit == l = 1 /\ body = {} /\ poly = {} /\ o = 1
TraceNext == Scenario \/ Body \/ Alpha \/ Field \/ Gradient \/ Hyp \/ Surf \/ Normals \/ Cover \/ Conv
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
