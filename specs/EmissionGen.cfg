SPECIFICATION Spec
CONSTANTS Depth = 5 Cap = 256
INVARIANT Out
