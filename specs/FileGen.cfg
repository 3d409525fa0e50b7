SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANT Out
