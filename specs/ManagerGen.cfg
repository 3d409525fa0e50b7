SPECIFICATION Spec
CONSTANT Ops = {"start", "stop", "restart"}
INVARIANT Emit
