SPECIFICATION Spec
CONSTANTS
 Variant = "ok"
 MaxReads = 3
INVARIANTS Honoured NoSilent RoundTrip
PROPERTY Atomic
CHECK_DEADLOCK FALSE
