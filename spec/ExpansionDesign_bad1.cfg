SPECIFICATION Spec
CONSTANTS
 Slots = {1, 2, 3}
 Depth = 6
 CopyRule = "share"
 AssignRule = "safe"
INVARIANTS Owned Unshared Implements NoLeak
PROPERTY Local
CONSTRAINT Small
CHECK_DEADLOCK FALSE
