SPECIFICATION Spec
CONSTANT MaxOps = 2
INVARIANTS InType OnlyAddressed Undone
CHECK_DEADLOCK FALSE
