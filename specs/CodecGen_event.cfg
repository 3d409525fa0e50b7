SPECIFICATION Spec
CONSTANTS Types = {"int8", "int32", "double"} Mtus = {34, 35, 38, 39, 45, 54, 58, 60, 74} Depth = 4 Kind = 2
INVARIANT Out
