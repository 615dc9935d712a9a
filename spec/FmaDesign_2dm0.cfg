SPECIFICATION Spec
CONSTANTS D = 2 K = 2 NE = 2 Levels = 2 MaxN = 0 Variant = "code"
INVARIANTS InvTree InvSeparated InvSingular InvExactlyOnce InvCriterion
CHECK_DEADLOCK FALSE
