CONSTANTS
 N = 3
 Procs = {1, 2}
 Imports = "own"
SPECIFICATION Spec
INVARIANTS InvResult InvConverged
CHECK_DEADLOCK FALSE
