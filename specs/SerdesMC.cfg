SPECIFICATION Spec
INVARIANTS Acceptable Idempotent
PROPERTY Stable
CHECK_DEADLOCK FALSE
