SPECIFICATION Spec
CONSTANTS
 Keep = {}
 Depth = 7
INVARIANT NoHistory
CHECK_DEADLOCK FALSE
