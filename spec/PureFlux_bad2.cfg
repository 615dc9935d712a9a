SPECIFICATION Spec
CONSTANTS N = 3 Procs = {1, 2} K = 1
 Shift = "bcast"
 Term = "none"
INVARIANTS Reference Differences FluxKept Unique
CHECK_DEADLOCK FALSE
