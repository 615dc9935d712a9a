CONSTANTS
 K = 3
 Leader = "dirichlet"
 Normals <- Three
 Opposing = TRUE
 Mixed = TRUE
 Sharing = TRUE
SPECIFICATION Spec
INVARIANTS InvEquiv InvTable InvOneFree InvPotential InvHanging
PROPERTY Terminates
CHECK_DEADLOCK FALSE
