SPECIFICATION Spec
CONSTANTS
 MaxCycles = 3
 MaxPre = 2
 Fault = "late"
INVARIANTS Solved Increasing Current Reported Once
PROPERTY Ends
CHECK_DEADLOCK FALSE
