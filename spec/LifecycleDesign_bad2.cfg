SPECIFICATION Spec
CONSTANTS
 Keep = {"sing"}
 Depth = 7
INVARIANT NoHistory
CHECK_DEADLOCK FALSE
