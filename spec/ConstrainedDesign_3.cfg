CONSTANTS
 N = 3
 Procs = {1, 2, 3}
 Imports = "masters"
SPECIFICATION Spec
INVARIANTS InvResult InvConverged
CHECK_DEADLOCK FALSE
