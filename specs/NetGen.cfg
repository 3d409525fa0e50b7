SPECIFICATION Spec
CONSTANTS N = 5
 Clients = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
