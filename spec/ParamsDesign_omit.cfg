SPECIFICATION Spec
CONSTANTS
 Variant = "omit"
 MaxReads = 3
INVARIANTS Honoured NoSilent RoundTrip
PROPERTY Atomic
CHECK_DEADLOCK FALSE
