SPECIFICATION Spec
CONSTANTS Producers = {p1, p2}
 Consumers = {c1, c2}
 Rounds = 3
 Bound = 2
 Undo = TRUE
INVARIANTS NeverNegative NeverTooFew Exact
CHECK_DEADLOCK FALSE
