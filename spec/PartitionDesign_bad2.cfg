SPECIFICATION Spec
CONSTANTS
 N = 4
 Cells = 3
 NP = 3
 Dim = 2
 VecRule = "map"
 MapRule = "inv"
INVARIANT OK
CHECK_DEADLOCK FALSE
