SPECIFICATION Spec
CONSTANTS
 K = 2
 D = 3
 Angle = "half"
 Normal = "outward"
 Basis = "harmonic"
INVARIANT Corners
INVARIANT Complement
INVARIANT Flat
INVARIANT NoFlux
INVARIANT Reciprocity
CHECK_DEADLOCK FALSE
