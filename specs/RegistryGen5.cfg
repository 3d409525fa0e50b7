SPECIFICATION Spec
CONSTANTS Names = {"a", "b", "c"} Depth = 5
INVARIANT Out
