SPECIFICATION Spec
CONSTANTS Types = {"boolean", "int16", "float", "uint64"} Mtus = {18, 20, 22, 25, 26, 30, 33} Depth = 5 Kind = 1
INVARIANT Out
