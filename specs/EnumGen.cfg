SPECIFICATION Spec
CONSTANTS Depth = 3
INVARIANTS Emit
