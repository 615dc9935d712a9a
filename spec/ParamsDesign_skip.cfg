SPECIFICATION Spec
CONSTANTS
 Variant = "skip"
 MaxReads = 3
INVARIANTS Honoured NoSilent RoundTrip
PROPERTY Atomic
CHECK_DEADLOCK FALSE
