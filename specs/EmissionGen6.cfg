SPECIFICATION Spec
CONSTANTS Depth = 6 Cap = 256
INVARIANT Out
