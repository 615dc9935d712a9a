SPECIFICATION Spec
CONSTANTS
 MaxCycles = 3
 MaxPre = 2
 Fault = "early"
INVARIANTS Solved Increasing Current Reported Once
PROPERTY Ends
CHECK_DEADLOCK FALSE
