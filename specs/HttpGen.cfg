SPECIFICATION Spec
CONSTANT N = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
