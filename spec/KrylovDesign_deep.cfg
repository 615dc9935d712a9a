SPECIFICATION Spec
CONSTANTS
 Bug = "ok"
 Runs = 2
 Rhs <- Every
INVARIANTS Right Contract
CHECK_DEADLOCK FALSE
