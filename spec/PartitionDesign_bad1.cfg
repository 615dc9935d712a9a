SPECIFICATION Spec
CONSTANTS
 N = 4
 Cells = 3
 NP = 3
 Dim = 2
 VecRule = "assoc"
 MapRule = "fwd"
INVARIANT OK
CHECK_DEADLOCK FALSE
