SPECIFICATION Spec
CONSTANTS
 Bug = "ok"
 Runs = 1
 Rhs <- First
INVARIANTS Right Contract
CHECK_DEADLOCK FALSE
