SPECIFICATION Spec
CONSTANTS N = 6
 Clients = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
