SPECIFICATION Spec
CONSTANT N = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
