SPECIFICATION Spec
CONSTANTS
 Bug = "singular"
 Runs = 2
 Rhs <- First
INVARIANTS Right Contract
CHECK_DEADLOCK FALSE
