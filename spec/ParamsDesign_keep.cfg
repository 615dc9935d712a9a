SPECIFICATION Spec
CONSTANTS
 Variant = "keep"
 MaxReads = 3
INVARIANTS Honoured NoSilent RoundTrip
PROPERTY Atomic
CHECK_DEADLOCK FALSE
