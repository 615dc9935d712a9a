SPECIFICATION Spec
CONSTANTS
 K = 2
 D = 2
 Angle = "count"
 Normal = "outward"
 Basis = "all"
INVARIANT Corners
INVARIANT Complement
INVARIANT Flat
INVARIANT NoFlux
INVARIANT Reciprocity
CHECK_DEADLOCK FALSE
