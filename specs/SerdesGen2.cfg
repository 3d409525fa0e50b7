SPECIFICATION Spec
CONSTANT N = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
