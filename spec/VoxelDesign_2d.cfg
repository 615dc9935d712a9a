SPECIFICATION Spec
CONSTANTS
 K = 3
 D = 2
 Angle = "count"
 Normal = "outward"
 Basis = "harmonic"
INVARIANT Corners
INVARIANT Complement
INVARIANT Flat
INVARIANT NoFlux
INVARIANT Reciprocity
CHECK_DEADLOCK FALSE
