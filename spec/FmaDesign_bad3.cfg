SPECIFICATION Spec
CONSTANTS D = 1 K = 4 NE = 2 Levels = 4 MaxN = 0 Variant = "noL2L"
INVARIANTS InvTree InvSeparated InvSingular InvExactlyOnce InvCriterion
CHECK_DEADLOCK FALSE
