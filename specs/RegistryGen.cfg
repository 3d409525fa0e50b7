SPECIFICATION Spec
CONSTANTS Names = {"a", "b"} Depth = 4
INVARIANT Out
