SPECIFICATION Spec
CONSTANTS
 Variant = "mix"
 MaxReads = 3
INVARIANTS Honoured NoSilent RoundTrip
PROPERTY Atomic
CHECK_DEADLOCK FALSE
