SPECIFICATION Spec
CONSTANTS
 Keep = {"mapping"}
 Depth = 7
INVARIANT NoHistory
CHECK_DEADLOCK FALSE
