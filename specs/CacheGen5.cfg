SPECIFICATION Spec
CONSTANTS Depth = 5
INVARIANTS Emit
