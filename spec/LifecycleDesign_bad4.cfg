SPECIFICATION Spec
CONSTANTS
 Keep = {"tags"}
 Depth = 7
INVARIANT NoHistory
CHECK_DEADLOCK FALSE
