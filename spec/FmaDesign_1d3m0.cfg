SPECIFICATION Spec
CONSTANTS D = 1 K = 3 NE = 2 Levels = 3 MaxN = 0 Variant = "code"
INVARIANTS InvTree InvSeparated InvSingular InvExactlyOnce InvCriterion
CHECK_DEADLOCK FALSE
