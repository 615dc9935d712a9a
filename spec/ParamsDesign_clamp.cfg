SPECIFICATION Spec
CONSTANTS
 Variant = "clamp"
 MaxReads = 3
INVARIANTS Honoured NoSilent RoundTrip
PROPERTY Atomic
CHECK_DEADLOCK FALSE
