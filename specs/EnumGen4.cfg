SPECIFICATION Spec
CONSTANTS Depth = 4
INVARIANTS Emit
