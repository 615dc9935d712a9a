CONSTANTS
 N = 3
 Procs = {1, 2}
 Imports = "masters"
SPECIFICATION Spec
INVARIANTS InvResult InvConverged
CHECK_DEADLOCK FALSE
