SPECIFICATION Spec
CONSTANTS N = 8
Rule = "both"
Steps = 3
MaxRef = 1
INVARIANTS Covers Restored OnlyRefines Minimal
PROPERTY Terminates
CHECK_DEADLOCK FALSE
