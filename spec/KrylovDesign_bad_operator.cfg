SPECIFICATION Spec
CONSTANTS
 Bug = "operator"
 Runs = 2
 Rhs <- First
INVARIANTS Right Contract
CHECK_DEADLOCK FALSE
