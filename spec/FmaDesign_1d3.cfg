SPECIFICATION Spec
CONSTANTS D = 1 K = 3 NE = 3 Levels = 3 MaxN = 1 Variant = "code"
INVARIANTS InvTree InvSeparated InvSingular InvExactlyOnce InvCriterion
CHECK_DEADLOCK FALSE
