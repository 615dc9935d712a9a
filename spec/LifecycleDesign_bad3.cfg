SPECIFICATION Spec
CONSTANTS
 Keep = {"ones"}
 Depth = 7
INVARIANT NoHistory
CHECK_DEADLOCK FALSE
