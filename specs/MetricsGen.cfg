SPECIFICATION Spec
CONSTANTS N = 6
 Bound = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
