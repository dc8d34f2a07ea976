SPECIFICATION Spec
INVARIANT RoundTrip Emit
CHECK_DEADLOCK FALSE
