SPECIFICATION Spec
INVARIANT TypeOK LastKind PathOrder AllExcluded Emit
CHECK_DEADLOCK FALSE
