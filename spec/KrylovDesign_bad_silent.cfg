SPECIFICATION Spec
CONSTANTS
 Bug = "silent"
 Runs = 2
 Rhs <- First
INVARIANTS Right Contract
CHECK_DEADLOCK FALSE
