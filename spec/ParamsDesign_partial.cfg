SPECIFICATION Spec
CONSTANTS
 Variant = "partial"
 MaxReads = 3
INVARIANTS Honoured NoSilent RoundTrip
PROPERTY Atomic
CHECK_DEADLOCK FALSE
