SPECIFICATION Spec
CONSTANTS N = 4
Rule = "parent"
Steps = 2
MaxRef = 1
INVARIANTS Covers Restored OnlyRefines Minimal
PROPERTY Terminates
CHECK_DEADLOCK FALSE
